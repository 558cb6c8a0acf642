use super::chr;
use super::tm;
use crate::api::*;
const FILE: u32 = 31;
extern "C" {
    fn DATE_AND_TIME_TO_DATE(t: i64) -> i64;
    fn DATE_AND_TIME_TO_TIME_OF_DAY(t: i64) -> i64;
    fn CONCAT_DATE_TOD(d: i64, t: i64) -> i64;
}
/// an instant with its day's distance from 1970 and its time of day
fn inst() -> (i64, i64, i64) {
    let t = tm::ns();
    let n = t.div_euclid(tm::DAY);
    (t, n, t.rem_euclid(tm::DAY))
}
unsafe fn tod() {
    chr::use_contracts();
    let (t, _, r) = inst();
    check!(DATE_AND_TIME_TO_TIME_OF_DAY(t) == r);
}
unsafe fn date() {
    chr::use_contracts();
    let (t, _, r) = inst();
    match t.checked_sub(r) {
        Some(m) => check!(DATE_AND_TIME_TO_DATE(t) == m),
        None => must_panic!(DATE_AND_TIME_TO_DATE(t)),
    }
}
/// the parts of an instant give it back
unsafe fn back() {
    chr::use_contracts();
    let t = tm::ns_case(choose(6));
    if t.div_euclid(tm::DAY) > -106_752 {
        check!(CONCAT_DATE_TOD(DATE_AND_TIME_TO_DATE(t), DATE_AND_TIME_TO_TIME_OF_DAY(t)) == t);
    }
}
unsafe fn combine(k: u64) {
    chr::use_contracts();
    let a = tm::ns_case(k);
    let (b, _, r) = inst();
    let n = a.div_euclid(tm::DAY);
    match (n as i128 * tm::DAY as i128 + r as i128).try_into() {
        Ok(v) => {
            let v: i64 = v;
            check!(CONCAT_DATE_TOD(a, b) == v)
        }
        Err(_) => must_panic!(CONCAT_DATE_TOD(a, b)),
    }
}
/// one call after the other
unsafe fn again() {
    chr::use_contracts();
    let (t, _, _) = inst();
    match choose(2) {
        0 => {
            DATE_AND_TIME_TO_TIME_OF_DAY(t);
            tod()
        }
        _ => {
            assume(t >= i64::MIN + tm::DAY);
            DATE_AND_TIME_TO_DATE(t);
            date()
        }
    }
}
macro_rules! h {
    ($($h:ident $e:expr;)*) => { $(#[no_mangle] pub unsafe extern "C" fn $h() { $e })* };
}
h! {
    h_c31_dq_again again();
    h_c31_dq_tod tod();
    h_c31_dq_date date();
    h_c31_dq_back back();
    h_c31_dq_combine combine(choose(8));
    h_c31_rq_tod tod();
    h_c31_rq_date date();
    h_c31_rq_combine combine(choose(8));
}
