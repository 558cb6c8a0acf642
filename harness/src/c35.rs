//! The local time zone is an arbitrary constant offset from UTC: symbolically chrono's look-up of the zone is
//! replaced, natively TZ is set.
use super::chr;
use super::clk;
use crate::api::*;
const FILE: u32 = 35;
const G: i64 = 1_000_000_000;
extern "C" {
    fn TIME() -> i64;
}
static mut OFFSET: i32 = 0;
#[export_name = "stub$chrono$offset$local$inner$offset"]
unsafe extern "C" fn s_offset(out: *mut i32, _at: *const i32, _local: bool) {
    // Single(FixedOffset)
    *out = 0;
    *out.add(1) = OFFSET;
}
#[export_name = "stub$chrono$naive$date$NaiveDate$succ_opt"]
unsafe extern "C" fn s_succ(x: *const i32) -> i32 {
    chr::next(*x, 1)
}
#[export_name = "stub$chrono$naive$date$NaiveDate$pred_opt"]
unsafe extern "C" fn s_pred(x: *const i32) -> i32 {
    chr::next(*x, -1)
}
#[export_name = "stub$vh$c35$zone"]
unsafe fn s_zone(offset: i32) {
    OFFSET = offset;
}
#[inline(never)]
unsafe fn zone(offset: i32) {
    // POSIX counts westwards
    let a = offset.abs();
    std::env::set_var("TZ", format!("AAA{}{:02}:{:02}:{:02}", if offset < 0 { "+" } else { "-" }, a / 3600, a / 60 % 60, a % 60));
}
unsafe fn go(neg: bool) {
    chr::use_contracts();
    let offset = if neg { -(ur(32, 1, 86_399) as i32) } else { ur(32, 0, 86_399) as i32 };
    zone(offset);
    let (day, sod, n) = (sr(64, 0, 100_000), sr(64, 0, 86_399), sr(64, 0, G - 1));
    clk::set(day * 86_400 + sod, n);
    let t = TIME();
    check!(t == (sod + offset as i64).rem_euclid(86_400) * G + n);
}
/// a second reading, later or earlier
unsafe fn again() {
    chr::use_contracts();
    let offset = 3600 * [0, 13, -13][choose(3) as usize];
    zone(offset);
    let mut i = 0;
    while i < 2 {
        let (day, sod, n) = (sr(64, 0, 100_000), sr(64, 0, 86_399), sr(64, 0, G - 1));
        clk::set(day * 86_400 + sod, n);
        let t = TIME();
        check!(t == (sod + offset as i64).rem_euclid(86_400) * G + n);
        i += 1;
    }
}
macro_rules! h {
    ($($h:ident $r:ident $e:expr;)*) => { $(#[no_mangle] pub unsafe extern "C" fn $h() { $e } #[no_mangle] pub unsafe extern "C" fn $r() { $e })* };
}
h! {
    h_c35_dq_again h_c35_rq_again again();
    h_c35_dq_east h_c35_rq_east go(false);
    h_c35_dq_west h_c35_rq_west go(true);
}
