//! Timer instances as PLC programs lay them out: IN, PT, Q, ET and 24 + 1 bytes of internal memory, zeroed.
use super::clk::{self, G};
use crate::api::*;
#[repr(C)]
pub struct P {
    pub inp: bool,
    pub pt: i64,
    pub q: bool,
    pub et: i64,
    mem: [u8; 32],
}
pub unsafe fn fresh() -> *mut P {
    buf(64) as *mut P
}
/// non-negative durations, put together from seconds and nanoseconds (exact division)
pub fn pt() -> i64 {
    sr(64, 0, 9_223_372_035) * G + sr(64, 0, G - 1)
}
/// the rest of the non-negative range
pub fn pt_top() -> i64 {
    9_223_372_036 * G + sr(64, 0, 854_775_807)
}
/// the call made at a time between lo and hi
pub struct When {
    pub lo: i64,
    pub hi: i64,
}
pub type F = unsafe extern "C" fn(*mut P);
/// one call; time passes before it, and within it if the clock is moving. PT and IN must survive.
pub unsafe fn call(f: F, p: *mut P, inp: bool, pt: i64) -> When {
    clk::pass();
    let lo = clk::now();
    (*p).inp = inp;
    (*p).pt = pt;
    f(p);
    const FILE: u32 = 4;
    check!(((*p).inp == inp) & ((*p).pt == pt));
    When { lo, hi: clk::now() }
}
/// is v the smaller of pt and an elapsed time between lo and hi?
pub fn capped(v: i64, pt: i64, lo: i64, hi: i64) -> bool {
    ((v >= pt) | (v >= lo)) & (v <= pt) & (v <= hi)
}
static mut SCRIPT: (u32, u32) = (0, 0);
/// the first `k` inputs are the bits of `bits` (the histories are split over several harnesses that way)
pub unsafe fn script(bits: u32, k: u32) {
    SCRIPT = (bits, k);
}
pub unsafe fn input() -> bool {
    if SCRIPT.1 > 0 {
        let b = SCRIPT.0 & 1 == 1;
        SCRIPT = (SCRIPT.0 >> 1, SCRIPT.1 - 1);
        b
    } else {
        choose(2) == 1
    }
}
