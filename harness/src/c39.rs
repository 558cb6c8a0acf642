//! Conversions between date/time types and numbers, written in ST, translated by stgen.py (module stl).
use super::stl::*;
use crate::api::*;
const FILE: u32 = 39;
macro_rules! keep {
    ($x:ident $t:ty: $($f:ident)*) => { $( check!($f($x) as $t == $x as $t); )* };
}
/// within the type, and between the types of a count
unsafe fn same() {
    let t = u64v() as i64;
    keep!(t i64: LTIME_TO_TIME TIME_TO_LTIME LDT_TO_DT DT_TO_LDT LTOD_TO_TOD TOD_TO_LTOD);
}
unsafe fn to_int() {
    let t = u64v() as i64;
    keep!(t i64: TIME_TO_LINT LTIME_TO_LINT TOD_TO_LINT LTOD_TO_LINT DT_TO_LINT LDT_TO_LINT DATE_TO_LINT LDATE_TO_LINT);
    keep!(t u64: TIME_TO_ULINT LTIME_TO_ULINT TOD_TO_ULINT LTOD_TO_ULINT DT_TO_ULINT LDT_TO_ULINT DATE_TO_ULINT LDATE_TO_ULINT);
    keep!(t u64: TIME_TO_LWORD LTIME_TO_LWORD TOD_TO_LWORD LTOD_TO_LWORD DT_TO_LWORD LDT_TO_LWORD DATE_TO_LWORD LDATE_TO_LWORD);
}
unsafe fn from_int() {
    let x = u64v() as i64;
    keep!(x i64: LINT_TO_TIME LINT_TO_LTIME LINT_TO_TOD LINT_TO_LTOD LINT_TO_DATE LINT_TO_LDATE);
    let y = u64v();
    keep!(y i64: ULINT_TO_DATE ULINT_TO_LDATE ULINT_TO_DT ULINT_TO_LDT ULINT_TO_TOD ULINT_TO_LTOD ULINT_TO_TIME ULINT_TO_LTIME);
    keep!(y i64: LWORD_TO_DATE LWORD_TO_LDATE LWORD_TO_DT LWORD_TO_LDT LWORD_TO_TOD LWORD_TO_LTOD LWORD_TO_TIME LWORD_TO_LTIME);
}
/// nearest LREAL; exact up to 2^53 ns (104 days)
unsafe fn to_lreal() {
    let t = u64v() as i64;
    check!(TIME_TO_LREAL(t).to_bits() == (t as f64).to_bits());
    check!(LTIME_TO_LREAL(t).to_bits() == (t as f64).to_bits());
}
unsafe fn from_lreal() {
    let x = f64v();
    let n = x.round();
    let fits = n >= -9223372036854775808.0 && n < 9223372036854775808.0;
    check!(!fits || LREAL_TO_TIME(x) == n as i64);
    check!(!fits || LREAL_TO_LTIME(x) == n as i64);
}
macro_rules! h {
    ($($h:ident $e:expr;)*) => { $(#[no_mangle] pub unsafe extern "C" fn $h() { $e })* };
}
h! {
    h_c39_dq_same same();
    h_c39_dq_to_int to_int();
    h_c39_dq_from_int from_int();
    h_c39_dq_to_lreal to_lreal();
    h_c39_dq_from_lreal from_lreal();
}
