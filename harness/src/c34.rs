use super::chr;
use super::tm;
use crate::api::*;
const FILE: u32 = 34;
extern "C" {
    fn DAY_OF_WEEK(t: i64) -> i8;
}
unsafe fn day() {
    chr::use_contracts();
    let t = tm::ns();
    // 1970-01-01 was a Thursday
    check!(DAY_OF_WEEK(t) as i64 == (t.div_euclid(tm::DAY) + 4).rem_euclid(7));
}
/// one call after the other
#[no_mangle]
pub unsafe extern "C" fn h_c34_dq_again() {
    chr::use_contracts();
    DAY_OF_WEEK(tm::ns());
    day()
}
#[no_mangle]
pub unsafe extern "C" fn h_c34_dq_day() {
    day()
}
#[no_mangle]
pub unsafe extern "C" fn h_c34_rq_day() {
    day()
}
