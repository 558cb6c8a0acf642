use super::cal;
use super::chr;
use super::tm;
use crate::api::*;
const FILE: u32 = 32;
/// a value of the operand's type, whatever the type's width, within lo..=hi
trait Field: Copy {
    const LO: i128;
    const HI: i128;
    fn of(x: i64) -> Self;
    fn big(lo: i128, hi: i128) -> Self;
    fn wide(self) -> i128;
}
macro_rules! field {
    ($($t:ty, $s:expr;)*) => { $(impl Field for $t {
        const LO: i128 = <$t>::MIN as i128;
        const HI: i128 = <$t>::MAX as i128;
        fn of(x: i64) -> $t {
            x as $t
        }
        fn big(lo: i128, hi: i128) -> $t {
            let lo = if lo < Self::LO { Self::LO } else { lo };
            let hi = if hi > Self::HI { Self::HI } else { hi };
            if lo > hi {
                assume(false);
            }
            let w = (core::mem::size_of::<$t>() * 8) as u32;
            if $s {
                sr(w, lo as i64, hi as i64) as $t
            } else {
                ur(w, lo as u64, hi as u64) as $t
            }
        }
        fn wide(self) -> i128 {
            self as i128
        }
    })* };
}
field! { i8, true; i16, true; i32, true; i64, true; u8, false; u16, false; u32, false; u64, false; }
const MIN: i128 = i128::MIN;
const MAX: i128 = i128::MAX;
type D<T> = unsafe extern "C" fn(T, T, T) -> i64;
type T4<T> = unsafe extern "C" fn(T, T, T, T) -> i64;
unsafe fn date<T: Field>(f: D<T>) {
    chr::use_contracts();
    let any = || T::big(MIN, MAX);
    match choose(11) {
        // dates that fit
        0 => {
            let (y, m, d, n, _) = cal::date();
            check!(f(T::of(y), T::of(m as i64), T::of(d as i64)) == n * tm::DAY);
        }
        1 => check!(f(T::of(2262), T::of(4), T::of(11)) == 106_751 * tm::DAY),
        // years without a representable day
        2 => must_panic!(f(T::big(MIN, 1676), any(), any())),
        3 => must_panic!(f(T::big(2263, MAX), any(), any())),
        // the incomplete years
        4 => must_panic!(f(T::of(1677), T::big(1, 8), any())),
        5 => must_panic!(f(T::of(1677), T::of(9), T::big(MIN, 21))),
        6 => must_panic!(f(T::of(2262), T::big(5, 12), any())),
        7 => must_panic!(f(T::of(2262), T::of(4), T::big(12, MAX))),
        // no such month, no such day
        8 => {
            let m = if choose(2) == 0 { T::big(MIN, 0) } else { T::big(13, MAX) };
            must_panic!(f(T::big(1677, 2262), m, any()));
        }
        9 => {
            let d = if choose(2) == 0 { T::big(MIN, 0) } else { T::big(32, MAX) };
            must_panic!(f(T::big(1677, 2262), T::big(1, 12), d));
        }
        // days 29 to 31 of shorter months
        _ => {
            let (y, leap) = [(1970, false), (1972, true), (2000, true), (2100, false), (1900, false), (1701, false), (2260, true), (1999, false)][choose(8) as usize];
            let m = choose(12) as u32 + 1;
            let last = chr::dim(leap, m) as i128;
            must_panic!(f(T::of(y), T::of(m as i64), T::big(last + 1, 31)));
        }
    }
}
unsafe fn tod<T: Field>(f: T4<T>) {
    let any = || T::big(MIN, MAX);
    let (h, mi, s, ms) = (any(), any(), any(), any());
    let (a, b, c, d) = (h.wide(), mi.wide(), s.wide(), ms.wide());
    if (a >= 0) & (a < 24) & (b >= 0) & (b < 60) & (c >= 0) & (c < 60) & (d >= 0) & (d < 1000) {
        check!(f(h, mi, s, ms) == (((a as i64 * 60 + b as i64) * 60 + c as i64) * 1000 + d as i64) * 1_000_000);
    } else {
        must_panic!(f(h, mi, s, ms));
    }
}
macro_rules! h {
    ($($h:ident $r:ident $g:ident $f:ident ($($p:ident: $t:ty),*);)*) => {
        extern "C" { $(fn $f($($p: $t),*) -> i64;)* }
        $(#[no_mangle] pub unsafe extern "C" fn $h() { $g($f) } #[no_mangle] pub unsafe extern "C" fn $r() { $g($f) })*
    };
}
h! {
    h_c32_dq_date_int h_c32_rq_date_int date CONCAT_DATE__INT(y: i16, m: i16, d: i16);
    h_c32_dq_date_uint h_c32_rq_date_uint date CONCAT_DATE__UINT(y: u16, m: u16, d: u16);
    h_c32_dq_date_dint h_c32_rq_date_dint date CONCAT_DATE__DINT(y: i32, m: i32, d: i32);
    h_c32_dq_date_udint h_c32_rq_date_udint date CONCAT_DATE__UDINT(y: u32, m: u32, d: u32);
    h_c32_dq_date_lint h_c32_rq_date_lint date CONCAT_DATE__LINT(y: i64, m: i64, d: i64);
    h_c32_dq_date_ulint h_c32_rq_date_ulint date CONCAT_DATE__ULINT(y: u64, m: u64, d: u64);
    h_c32_dq_tod_sint h_c32_rq_tod_sint tod CONCAT_TOD__SINT(h: i8, m: i8, s: i8, l: i8);
    h_c32_dq_tod_usint h_c32_rq_tod_usint tod CONCAT_TOD__USINT(h: u8, m: u8, s: u8, l: u8);
    h_c32_dq_tod_int h_c32_rq_tod_int tod CONCAT_TOD__INT(h: i16, m: i16, s: i16, l: i16);
    h_c32_dq_tod_uint h_c32_rq_tod_uint tod CONCAT_TOD__UINT(h: u16, m: u16, s: u16, l: u16);
    h_c32_dq_tod_dint h_c32_rq_tod_dint tod CONCAT_TOD__DINT(h: i32, m: i32, s: i32, l: i32);
    h_c32_dq_tod_udint h_c32_rq_tod_udint tod CONCAT_TOD__UDINT(h: u32, m: u32, s: u32, l: u32);
    h_c32_dq_tod_lint h_c32_rq_tod_lint tod CONCAT_TOD__LINT(h: i64, m: i64, s: i64, l: i64);
    h_c32_dq_tod_ulint h_c32_rq_tod_ulint tod CONCAT_TOD__ULINT(h: u64, m: u64, s: u64, l: u64);
}
