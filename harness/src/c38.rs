//! Date and time functions written in ST, translated by stgen.py (module stl), on top of the Rust half.
use super::cal::{self, Inst};
use super::chr;
use super::stl;
use super::tm;
use crate::api::*;
const FILE: u32 = 38;
type F2 = unsafe fn(i64, i64) -> i64;
/// a op b, or failure: one function of the list
unsafe fn sums(add: bool, fs: &[F2]) {
    chr::use_contracts();
    let f = fs[choose(fs.len() as u64) as usize];
    let (a, b) = (tm::ns(), tm::ns());
    match if add { a.checked_add(b) } else { a.checked_sub(b) } {
        Some(v) => check!(f(a, b) == v),
        None => must_panic!(f(a, b)),
    }
}
unsafe fn add_a() {
    sums(true, &[stl::ADD__TIME__TIME, stl::ADD_LTIME, stl::ADD__TIME_OF_DAY__TIME]);
}
unsafe fn add_b() {
    sums(true, &[stl::ADD_LTOD_LTIME, stl::ADD__DATE_AND_TIME__TIME, stl::ADD_LDT_LTIME]);
}
unsafe fn sub_a() {
    sums(false, &[stl::SUB__TIME__TIME, stl::SUB_LTIME, stl::SUB__DATE__DATE]);
}
unsafe fn sub_b() {
    sums(false, &[stl::SUB_LDATE_LDATE, stl::SUB__TIME_OF_DAY__TIME, stl::SUB_LTOD_LTIME]);
}
unsafe fn sub_c() {
    sums(false, &[stl::SUB__TIME_OF_DAY__TIME_OF_DAY, stl::SUB_LTOD_LTOD, stl::SUB__DATE_AND_TIME__TIME]);
}
unsafe fn sub_d() {
    sums(false, &[stl::SUB_LDT_LTIME, stl::SUB__DATE_AND_TIME__DATE_AND_TIME, stl::SUB_LDT_LDT]);
}
/// any value of the type
trait Any: Copy {
    fn any() -> Self;
    fn of(x: i64) -> Self;
    fn wide(self) -> i128;
}
macro_rules! any {
    ($($t:ty, $e:expr;)*) => { $(impl Any for $t {
        fn any() -> $t { $e as $t }
        fn of(x: i64) -> $t { x as $t }
        fn wide(self) -> i128 { self as i128 }
    })* };
}
any! { i8, u8v(); u8, u8v(); i16, u16v(); u16, u16v(); i32, u32v(); u32, u32v(); i64, u64v(); u64, u64v(); }
fn tod_ns(h: i64, m: i64, s: i64, ms: i64) -> i64 {
    (((h * 60 + m) * 60 + s) * 1000 + ms) * 1_000_000
}
unsafe fn ltod<T: Any>(f: unsafe fn(T, T, T, T) -> i64) {
    let (h, mi, s, ms) = (T::any(), T::any(), T::any(), T::any());
    let (a, b, c, d) = (h.wide(), mi.wide(), s.wide(), ms.wide());
    if (a >= 0) & (a < 24) & (b >= 0) & (b < 60) & (c >= 0) & (c < 60) & (d >= 0) & (d < 1000) {
        check!(f(h, mi, s, ms) == tod_ns(a as i64, b as i64, c as i64, d as i64));
    } else {
        must_panic!(f(h, mi, s, ms));
    }
}
macro_rules! dt {
    ($f:expr, $g:expr, $t:ty) => {{
        chr::use_contracts();
        let o = <$t>::of;
        match choose(5) {
            0 => {
                let (y, m, d, n, _) = cal::date_of(4 + 8 * (choose(2)));
                let (h, mi, s, ms) = (sr(64, 0, 23), sr(64, 0, 59), sr(64, 0, 59), sr(64, 0, 999));
                let v = n * tm::DAY + tod_ns(h, mi, s, ms);
                if choose(2) == 0 {
                    check!($f(o(y), o(m as i64), o(d as i64), o(h), o(mi), o(s), o(ms)) == v);
                } else {
                    check!($g(o(y), o(m as i64), o(d as i64), o(h), o(mi), o(s), o(ms)) == v);
                }
            }
            // a time of day that does not exist
            1 => must_panic!($f(o(2001), o(2), o(3), o(24), o(0), o(0), o(0))),
            2 => must_panic!($g(o(2001), o(2), o(3), o(0), o(60), o(0), o(0))),
            3 => must_panic!($f(o(2001), o(2), o(29), o(0), o(0), o(0), o(0))),
            _ => must_panic!($g(o(2001), o(13), o(3), o(0), o(0), o(0), o(0))),
        }
    }};
}
macro_rules! types {
    ($($l:ident $ld:ident $t:ty, $hl:ident;)*) => { $(
        #[no_mangle]
        pub unsafe extern "C" fn $hl() {
            ltod::<$t>(stl::$l)
        }
    )* };
}
types! {
    CONCAT_LTOD__SINT x i8, h_c38_dq_ltod_sint;
    CONCAT_LTOD__USINT x u8, h_c38_dq_ltod_usint;
    CONCAT_LTOD__INT x i16, h_c38_dq_ltod_int;
    CONCAT_LTOD__UINT x u16, h_c38_dq_ltod_uint;
    CONCAT_LTOD__DINT x i32, h_c38_dq_ltod_dint;
    CONCAT_LTOD__UDINT x u32, h_c38_dq_ltod_udint;
    CONCAT_LTOD__LINT x i64, h_c38_dq_ltod_lint;
    CONCAT_LTOD__ULINT x u64, h_c38_dq_ltod_ulint;
}
macro_rules! parts {
    ($lt:ident $ld:ident $t:ty) => {{
        chr::use_contracts();
        let i = cal::inst_of(4);
        let mut o: [$t; 7] = [<$t>::any(), <$t>::any(), <$t>::any(), <$t>::any(), <$t>::any(), <$t>::any(), <$t>::any()];
        let p = o.as_mut_ptr();
        if choose(2) == 0 {
            stl::$lt(i.t, p, p.add(1), p.add(2), p.add(3));
            check!((*p as i64 == i.h as i64) & (*p.add(1) as i64 == i.mi as i64) & (*p.add(2) as i64 == i.s as i64) & (*p.add(3) as i64 == (i.ns / 1_000_000) as i64));
        } else {
            stl::$ld(i.t, p, p.add(1), p.add(2), p.add(3), p.add(4), p.add(5), p.add(6));
            check!((*p as i64 == i.y) & (*p.add(1) as i64 == i.m as i64) & (*p.add(2) as i64 == i.d as i64)
                & (*p.add(3) as i64 == i.h as i64) & (*p.add(4) as i64 == i.mi as i64) & (*p.add(5) as i64 == i.s as i64) & (*p.add(6) as i64 == (i.ns / 1_000_000) as i64));
        }
    }};
}
/// the parts of a DT, and two together
unsafe fn split_dt() {
    chr::use_contracts();
    let t = tm::ns_case(choose(6));
    let n = t.div_euclid(tm::DAY);
    let r = t.rem_euclid(tm::DAY);
    match choose(7) {
        0 => check!(stl::LDT_TO_LTOD(t) == r),
        1 => check!(stl::LDT_TO_TOD(t) == r),
        2 => check!(stl::DT_TO_LTOD(t) == r),
        3 => check!(stl::DT_TO_TOD(t) == r),
        k => {
            if n > -106_752 {
                match k {
                    4 => check!(stl::LDT_TO_DATE(t) == n * tm::DAY),
                    5 => check!(stl::DT_TO_DATE(t) == n * tm::DAY),
                    _ => check!(stl::CONCAT_DATE_LTOD(n * tm::DAY, r) == t),
                }
            }
        }
    }
}
macro_rules! h {
    ($($h:ident $e:expr;)*) => { $(#[no_mangle] pub unsafe extern "C" fn $h() { $e })* };
}
h! {
    h_c38_dq_add_a add_a();
    h_c38_dq_add_b add_b();
    h_c38_dq_sub_a sub_a();
    h_c38_dq_sub_b sub_b();
    h_c38_dq_sub_c sub_c();
    h_c38_dq_sub_d sub_d();
    h_c38_dq_parts split_dt();
    h_c38_dq_dt_int dt!(stl::CONCAT_DT__INT, stl::CONCAT_LDT__INT, i16);
    h_c38_dq_dt_uint dt!(stl::CONCAT_DT__UINT, stl::CONCAT_LDT__UINT, u16);
    h_c38_dq_dt_dint dt!(stl::CONCAT_DT__DINT, stl::CONCAT_LDT__DINT, i32);
    h_c38_dq_dt_udint dt!(stl::CONCAT_DT__UDINT, stl::CONCAT_LDT__UDINT, u32);
    h_c38_dq_dt_lint dt!(stl::CONCAT_DT__LINT, stl::CONCAT_LDT__LINT, i64);
    h_c38_dq_dt_ulint dt!(stl::CONCAT_DT__ULINT, stl::CONCAT_LDT__ULINT, u64);
    h_c38_dq_split_int parts!(SPLIT_LTOD__INT SPLIT_LDT__INT i16);
    h_c38_dq_split_uint parts!(SPLIT_LTOD__UINT SPLIT_LDT__UINT u16);
    h_c38_dq_split_dint parts!(SPLIT_LTOD__DINT SPLIT_LDT__DINT i32);
    h_c38_dq_split_udint parts!(SPLIT_LTOD__UDINT SPLIT_LDT__UDINT u32);
    h_c38_dq_split_lint parts!(SPLIT_LTOD__LINT SPLIT_LDT__LINT i64);
    h_c38_dq_split_ulint parts!(SPLIT_LTOD__ULINT SPLIT_LDT__ULINT u64);
}
