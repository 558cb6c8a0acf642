use super::cal::{self, Inst};
use super::chr;
use super::tm;
use crate::api::*;
const FILE: u32 = 33;
macro_rules! lib {
    ($($d:ident $t:ident $dt:ident $ty:ty, $hd:ident $ht:ident $hdt:ident $rd:ident $rt:ident $rdt:ident;)*) => {
        extern "C" {
            $(
                fn $d(a: i64, y: *mut $ty, m: *mut $ty, d: *mut $ty) -> i16;
                fn $t(a: i64, h: *mut $ty, m: *mut $ty, s: *mut $ty, l: *mut $ty) -> i16;
                fn $dt(a: i64, y: *mut $ty, m: *mut $ty, d: *mut $ty, h: *mut $ty, mi: *mut $ty, s: *mut $ty, l: *mut $ty) -> i16;
            )*
        }
        $(
            #[no_mangle]
            pub unsafe extern "C" fn $hd() {
                go::<$ty>(|i| {
                    let mut o: [$ty; 3] = [<$ty as Any>::any(), <$ty as Any>::any(), <$ty as Any>::any()];
                    let p = o.as_mut_ptr();
                    $d(i.t, p, p.add(1), p.add(2));
                    (o[0] as i64 == i.y) & (o[1] as i64 == i.m as i64) & (o[2] as i64 == i.d as i64)
                })
            }
            #[no_mangle]
            pub unsafe extern "C" fn $rd() {
                go::<$ty>(|i| {
                    let mut o: [$ty; 3] = [<$ty as Any>::any(), <$ty as Any>::any(), <$ty as Any>::any()];
                    let p = o.as_mut_ptr();
                    $d(i.t, p, p.add(1), p.add(2));
                    (o[0] as i64 == i.y) & (o[1] as i64 == i.m as i64) & (o[2] as i64 == i.d as i64)
                })
            }
            #[no_mangle]
            pub unsafe extern "C" fn $ht() {
                go::<$ty>(|i| {
                    let mut o: [$ty; 4] = [<$ty as Any>::any(); 4];
                    let p = o.as_mut_ptr();
                    $t(i.t, p, p.add(1), p.add(2), p.add(3));
                    (o[0] as i64 == i.h as i64) & (o[1] as i64 == i.mi as i64) & (o[2] as i64 == i.s as i64) & (o[3] as i64 == (i.ns / 1_000_000) as i64)
                })
            }
            #[no_mangle]
            pub unsafe extern "C" fn $rt() {
                go::<$ty>(|i| {
                    let mut o: [$ty; 4] = [<$ty as Any>::any(); 4];
                    let p = o.as_mut_ptr();
                    $t(i.t, p, p.add(1), p.add(2), p.add(3));
                    (o[0] as i64 == i.h as i64) & (o[1] as i64 == i.mi as i64) & (o[2] as i64 == i.s as i64) & (o[3] as i64 == (i.ns / 1_000_000) as i64)
                })
            }
            #[no_mangle]
            pub unsafe extern "C" fn $hdt() {
                go::<$ty>(|i| {
                    let mut o: [$ty; 7] = [<$ty as Any>::any(); 7];
                    let p = o.as_mut_ptr();
                    $dt(i.t, p, p.add(1), p.add(2), p.add(3), p.add(4), p.add(5), p.add(6));
                    (o[0] as i64 == i.y) & (o[1] as i64 == i.m as i64) & (o[2] as i64 == i.d as i64)
                        & (o[3] as i64 == i.h as i64) & (o[4] as i64 == i.mi as i64) & (o[5] as i64 == i.s as i64) & (o[6] as i64 == (i.ns / 1_000_000) as i64)
                })
            }
            #[no_mangle]
            pub unsafe extern "C" fn $rdt() {
                go::<$ty>(|i| {
                    let mut o: [$ty; 7] = [<$ty as Any>::any(); 7];
                    let p = o.as_mut_ptr();
                    $dt(i.t, p, p.add(1), p.add(2), p.add(3), p.add(4), p.add(5), p.add(6));
                    (o[0] as i64 == i.y) & (o[1] as i64 == i.m as i64) & (o[2] as i64 == i.d as i64)
                        & (o[3] as i64 == i.h as i64) & (o[4] as i64 == i.mi as i64) & (o[5] as i64 == i.s as i64) & (o[6] as i64 == (i.ns / 1_000_000) as i64)
                })
            }
        )*
    };
}
unsafe fn go<T>(f: unsafe fn(Inst) -> bool) {
    chr::use_contracts();
    let i = cal::inst();
    check!(f(i));
}
lib! {
    SPLIT_DATE__INT SPLIT_TOD__INT SPLIT_DT__INT i16, h_c33_dq_date_int h_c33_dq_tod_int h_c33_dq_dt_int h_c33_rq_date_int h_c33_rq_tod_int h_c33_rq_dt_int;
    SPLIT_DATE__UINT SPLIT_TOD__UINT SPLIT_DT__UINT u16, h_c33_dq_date_uint h_c33_dq_tod_uint h_c33_dq_dt_uint h_c33_rq_date_uint h_c33_rq_tod_uint h_c33_rq_dt_uint;
    SPLIT_DATE__DINT SPLIT_TOD__DINT SPLIT_DT__DINT i32, h_c33_dq_date_dint h_c33_dq_tod_dint h_c33_dq_dt_dint h_c33_rq_date_dint h_c33_rq_tod_dint h_c33_rq_dt_dint;
    SPLIT_DATE__UDINT SPLIT_TOD__UDINT SPLIT_DT__UDINT u32, h_c33_dq_date_udint h_c33_dq_tod_udint h_c33_dq_dt_udint h_c33_rq_date_udint h_c33_rq_tod_udint h_c33_rq_dt_udint;
    SPLIT_DATE__LINT SPLIT_TOD__LINT SPLIT_DT__LINT i64, h_c33_dq_date_lint h_c33_dq_tod_lint h_c33_dq_dt_lint h_c33_rq_date_lint h_c33_rq_tod_lint h_c33_rq_dt_lint;
    SPLIT_DATE__ULINT SPLIT_TOD__ULINT SPLIT_DT__ULINT u64, h_c33_dq_date_ulint h_c33_dq_tod_ulint h_c33_dq_dt_ulint h_c33_rq_date_ulint h_c33_rq_tod_ulint h_c33_rq_dt_ulint;
}
/// one call after the other
#[no_mangle]
pub unsafe extern "C" fn h_c33_dq_again() {
    chr::use_contracts();
    let t = [0, -1, 951_782_399_999_999_999][choose(3) as usize];
    let mut w = [0i64; 7];
    let p = w.as_mut_ptr();
    let mut o = [0i64; 7];
    let q = o.as_mut_ptr();
    let k = choose(3);
    match k {
        0 => SPLIT_DATE__LINT(t, p, p.add(1), p.add(2)),
        1 => SPLIT_TOD__LINT(t, p, p.add(1), p.add(2), p.add(3)),
        _ => SPLIT_DT__LINT(t, p, p.add(1), p.add(2), p.add(3), p.add(4), p.add(5), p.add(6)),
    };
    let i = cal::inst();
    match k {
        0 => {
            SPLIT_DATE__LINT(i.t, q, q.add(1), q.add(2));
        }
        1 => {
            SPLIT_TOD__LINT(i.t, q.add(3), q.add(4), q.add(5), q.add(6));
        }
        _ => {
            SPLIT_DT__LINT(i.t, q, q.add(1), q.add(2), q.add(3), q.add(4), q.add(5), q.add(6));
        }
    }
    check!(k == 1 || (o[0] == i.y) & (o[1] == i.m as i64) & (o[2] == i.d as i64));
    check!(k == 0 || (o[3] == i.h as i64) & (o[4] == i.mi as i64) & (o[5] == i.s as i64) & (o[6] == (i.ns / 1_000_000) as i64));
}
