//! Conversions written in ST, translated by stgen.py (module stl). Integers are compared as mathematical values in i128.
use super::stl;
use crate::api::*;
const FILE: u32 = 36;
extern "C" {
    fn LWORD_TO_LREAL(x: u64) -> f64;
    fn DWORD_TO_REAL(x: u32) -> f32;
    fn LREAL_TO_LWORD(x: f64) -> u64;
    fn REAL_TO_DWORD(x: f32) -> u32;
}
/// representable: the same value
macro_rules! val {
    ($x:ident $($f:ident $t:ty),*) => { $(
        let r = stl::$f($x);
        let fits = $x as i128 >= <$t>::MIN as i128 && $x as i128 <= <$t>::MAX as i128;
        check!(!fits || r as i128 == $x as i128);
    )* };
}
/// bit patterns: the low bits, zeroes above
macro_rules! pat {
    ($x:ident $($f:ident $u:ty, $t:ty),*) => { $(
        let r = stl::$f($x);
        check!(r as $t as u64 == ($x as $u as u64) & <$t>::MAX as u64);
    )* };
}
/// to BOOL: the lowest bit
macro_rules! bit {
    ($x:ident $($f:ident),*) => { $(
        check!(stl::$f($x) == $x as u8 & 1);
    )* };
}
/// integer to float: nearest (exact whenever representable)
macro_rules! flt {
    ($x:ident $($f:ident $t:ty),*) => { $(
        check!(stl::$f($x).to_bits() == ($x as $t).to_bits());
    )* };
}
unsafe fn lint() {
    let x = u64v() as i64;
    val!(x LINT_TO_DINT i32, LINT_TO_INT i16, LINT_TO_SINT i8, LINT_TO_ULINT u64, LINT_TO_UDINT u32, LINT_TO_UINT u16, LINT_TO_USINT u8,
         LINT_TO_LWORD u64, LINT_TO_DWORD u32, LINT_TO_WORD u16, LINT_TO_BYTE u8);
    pat!(x LINT_TO_LWORD u64, u64);
    flt!(x LINT_TO_LREAL f64, LINT_TO_REAL f32);
    check!(stl::LINT_TO_BOOL(x) == (x != 0) as u8);
}
unsafe fn dint() {
    let x = u32v() as i32;
    val!(x DINT_TO_LINT i64, DINT_TO_INT i16, DINT_TO_SINT i8, DINT_TO_ULINT u64, DINT_TO_UDINT u32, DINT_TO_UINT u16, DINT_TO_USINT u8,
         DINT_TO_LWORD u64, DINT_TO_DWORD u32, DINT_TO_WORD u16, DINT_TO_BYTE u8);
    pat!(x DINT_TO_DWORD u32, u32);
    flt!(x DINT_TO_LREAL f64, DINT_TO_REAL f32);
    check!(stl::DINT_TO_BOOL(x) == (x != 0) as u8);
}
unsafe fn int() {
    let x = u16v() as i16;
    val!(x INT_TO_LINT i64, INT_TO_DINT i32, INT_TO_SINT i8, INT_TO_ULINT u64, INT_TO_UDINT u32, INT_TO_UINT u16, INT_TO_USINT u8,
         INT_TO_LWORD u64, INT_TO_DWORD u32, INT_TO_WORD u16, INT_TO_BYTE u8);
    pat!(x INT_TO_WORD u16, u16);
    flt!(x INT_TO_LREAL f64, INT_TO_REAL f32);
}
unsafe fn sint() {
    let x = u8v() as i8;
    val!(x SINT_TO_LINT i64, SINT_TO_DINT i32, SINT_TO_INT i16, SINT_TO_ULINT u64, SINT_TO_UDINT u32, SINT_TO_UINT u16, SINT_TO_USINT u8,
         SINT_TO_LWORD u64, SINT_TO_DWORD u32, SINT_TO_WORD u16, SINT_TO_BYTE u8);
    pat!(x SINT_TO_BYTE u8, u8);
    flt!(x SINT_TO_LREAL f64, SINT_TO_REAL f32);
}
unsafe fn ulint() {
    let x = u64v();
    val!(x ULINT_TO_LINT i64, ULINT_TO_DINT i32, ULINT_TO_INT i16, ULINT_TO_SINT i8, ULINT_TO_UDINT u32, ULINT_TO_UINT u16, ULINT_TO_USINT u8,
         ULINT_TO_LWORD u64, ULINT_TO_DWORD u32, ULINT_TO_WORD u16, ULINT_TO_BYTE u8);
    flt!(x ULINT_TO_LREAL f64, ULINT_TO_REAL f32);
}
unsafe fn udint() {
    let x = u32v();
    val!(x UDINT_TO_LINT i64, UDINT_TO_DINT i32, UDINT_TO_INT i16, UDINT_TO_SINT i8, UDINT_TO_ULINT u64, UDINT_TO_UINT u16, UDINT_TO_USINT u8,
         UDINT_TO_LWORD u64, UDINT_TO_DWORD u32, UDINT_TO_WORD u16, UDINT_TO_BYTE u8);
    flt!(x UDINT_TO_LREAL f64, UDINT_TO_REAL f32);
}
unsafe fn uint() {
    let x = u16v();
    val!(x UINT_TO_LINT i64, UINT_TO_DINT i32, UINT_TO_INT i16, UINT_TO_SINT i8, UINT_TO_ULINT u64, UINT_TO_UDINT u32, UINT_TO_USINT u8,
         UINT_TO_LWORD u64, UINT_TO_DWORD u32, UINT_TO_WORD u16, UINT_TO_BYTE u8);
    flt!(x UINT_TO_LREAL f64, UINT_TO_REAL f32);
}
unsafe fn usint() {
    let x = u8v();
    val!(x USINT_TO_LINT i64, USINT_TO_DINT i32, USINT_TO_INT i16, USINT_TO_SINT i8, USINT_TO_ULINT u64, USINT_TO_UDINT u32, USINT_TO_UINT u16,
         USINT_TO_LWORD u64, USINT_TO_DWORD u32, USINT_TO_WORD u16, USINT_TO_BYTE u8);
    flt!(x USINT_TO_LREAL f64, USINT_TO_REAL f32);
}
unsafe fn lword() {
    let x = u64v();
    val!(x LWORD_TO_LINT i64, LWORD_TO_DINT i32, LWORD_TO_INT i16, LWORD_TO_SINT i8, LWORD_TO_ULINT u64, LWORD_TO_UDINT u32, LWORD_TO_UINT u16, LWORD_TO_USINT u8);
    pat!(x LWORD_TO_DWORD u64, u32, LWORD_TO_WORD u64, u16, LWORD_TO_BYTE u64, u8, LWORD_TO_LINT u64, u64);
    bit!(x LWORD_TO_BOOL);
}
unsafe fn dword() {
    let x = u32v();
    val!(x DWORD_TO_LINT i64, DWORD_TO_DINT i32, DWORD_TO_INT i16, DWORD_TO_SINT i8, DWORD_TO_ULINT u64, DWORD_TO_UDINT u32, DWORD_TO_UINT u16, DWORD_TO_USINT u8);
    pat!(x DWORD_TO_LWORD u32, u64, DWORD_TO_WORD u32, u16, DWORD_TO_BYTE u32, u8, DWORD_TO_DINT u32, u32);
    bit!(x DWORD_TO_BOOL);
}
unsafe fn word() {
    let x = u16v();
    val!(x WORD_TO_LINT i64, WORD_TO_DINT i32, WORD_TO_INT i16, WORD_TO_SINT i8, WORD_TO_ULINT u64, WORD_TO_UDINT u32, WORD_TO_UINT u16, WORD_TO_USINT u8);
    pat!(x WORD_TO_LWORD u16, u64, WORD_TO_DWORD u16, u32, WORD_TO_BYTE u16, u8, WORD_TO_INT u16, u16);
    bit!(x WORD_TO_BOOL);
}
unsafe fn byte() {
    let x = u8v();
    val!(x BYTE_TO_LINT i64, BYTE_TO_DINT i32, BYTE_TO_INT i16, BYTE_TO_SINT i8, BYTE_TO_ULINT u64, BYTE_TO_UDINT u32, BYTE_TO_UINT u16, BYTE_TO_USINT u8);
    pat!(x BYTE_TO_LWORD u8, u64, BYTE_TO_DWORD u8, u32, BYTE_TO_WORD u8, u16, BYTE_TO_SINT u8, u8, BYTE_TO_CHAR u8, u8);
    bit!(x BYTE_TO_BOOL);
}
unsafe fn boolean() {
    let x = u8v();
    assume(x < 2);
    val!(x BOOL_TO_LINT i64, BOOL_TO_DINT i32, BOOL_TO_INT i16, BOOL_TO_SINT i8, BOOL_TO_ULINT u64, BOOL_TO_UDINT u32, BOOL_TO_UINT u16, BOOL_TO_USINT u8,
         BOOL_TO_LWORD u64, BOOL_TO_DWORD u32, BOOL_TO_WORD u16, BOOL_TO_BYTE u8);
}
unsafe fn chars() {
    let x = u8v();
    pat!(x CHAR_TO_BYTE u8, u8, CHAR_TO_WORD u8, u16, CHAR_TO_DWORD u8, u32, CHAR_TO_LWORD u8, u64);
    let y = u16v();
    pat!(y WCHAR_TO_WORD u16, u16, WCHAR_TO_DWORD u16, u32, WCHAR_TO_LWORD u16, u64);
}
/// the bit patterns of REAL and LREAL
unsafe fn float_bits() {
    let (x, y) = (u64v(), u32v());
    check!(LWORD_TO_LREAL(x).to_bits() == x);
    check!(DWORD_TO_REAL(y).to_bits() == y);
    check!(LREAL_TO_LWORD(f64::from_bits(x)) == x);
    check!(REAL_TO_DWORD(f32::from_bits(y)) == y);
}
/// rounded to the nearest integer, halves away from zero, when that is representable
macro_rules! rnd {
    ($x:ident $($f:ident $t:ty, $lo:expr, $hi:expr);*) => { $(
        let r = stl::$f($x);
        let n = $x.round();
        // bounds: powers of two, exact in every float type
        let fits = n >= $lo && n < $hi;
        check!(!fits || r == n as $t);
    )* };
}
unsafe fn lreal_int() {
    let x = f64v();
    rnd!(x LREAL_TO_LINT i64, -9223372036854775808.0, 9223372036854775808.0; LREAL_TO_DINT i32, -2147483648.0, 2147483648.0;
         LREAL_TO_INT i16, -32768.0, 32768.0; LREAL_TO_SINT i8, -128.0, 128.0; LREAL_TO_ULINT u64, 0.0, 18446744073709551616.0;
         LREAL_TO_UDINT u32, 0.0, 4294967296.0; LREAL_TO_UINT u16, 0.0, 65536.0; LREAL_TO_USINT u8, 0.0, 256.0);
}
unsafe fn real_int() {
    let x = f32v();
    rnd!(x REAL_TO_LINT i64, -9223372036854775808.0, 9223372036854775808.0; REAL_TO_DINT i32, -2147483648.0, 2147483648.0;
         REAL_TO_INT i16, -32768.0, 32768.0; REAL_TO_SINT i8, -128.0, 128.0; REAL_TO_ULINT u64, 0.0, 18446744073709551616.0;
         REAL_TO_UDINT u32, 0.0, 4294967296.0; REAL_TO_UINT u16, 0.0, 65536.0; REAL_TO_USINT u8, 0.0, 256.0);
}
unsafe fn real_lreal() {
    let x = f32v();
    let y = stl::REAL_TO_LREAL(x);
    check!(x.is_nan() && y.is_nan() || y.to_bits() == (x as f64).to_bits());
    // there and back again
    let z = stl::LREAL_TO_REAL(y);
    check!(x.is_nan() && z.is_nan() || z.to_bits() == x.to_bits());
    let v = f64v();
    let w = stl::LREAL_TO_REAL(v);
    check!(v.is_nan() && w.is_nan() || w.to_bits() == (v as f32).to_bits());
}
macro_rules! h {
    ($($h:ident $e:expr;)*) => { $(#[no_mangle] pub unsafe extern "C" fn $h() { $e })* };
}
h! {
    h_c36_dq_lint lint();
    h_c36_dq_dint dint();
    h_c36_dq_int int();
    h_c36_dq_sint sint();
    h_c36_dq_ulint ulint();
    h_c36_dq_udint udint();
    h_c36_dq_uint uint();
    h_c36_dq_usint usint();
    h_c36_dq_lword lword();
    h_c36_dq_dword dword();
    h_c36_dq_word word();
    h_c36_dq_byte byte();
    h_c36_dq_bool boolean();
    h_c36_dq_char chars();
    h_c36_dq_bits float_bits();
    h_c36_dq_lreal_int lreal_int();
    h_c36_dq_real_int real_int();
    h_c36_dq_real_lreal real_lreal();
    h_c36_rq_lreal_int lreal_int();
    h_c36_rq_real_int real_int();
    h_c36_rq_lint lint();
}
