//! Arbitrary 64-bit nanosecond counts, put together from days, seconds and nanoseconds so that the executor can
//! divide them exactly. The cases together are all of i64.
use crate::api::*;
pub const G: i64 = 1_000_000_000;
pub const DAY: i64 = 86_400 * G;
pub const CASES: u64 = 8;
pub fn ns() -> i64 {
    ns_case(choose(CASES))
}
fn sod() -> i64 {
    sr(64, 0, 86_399)
}
fn any_ns() -> i64 {
    sr(64, 0, G - 1)
}
fn pos_ns() -> i64 {
    sr(64, 1, G - 1)
}
pub fn ns_case(k: u64) -> i64 {
    match k {
        0 => (sr(64, 0, 106_750) * 86_400 + sod()) * G + any_ns(),
        1 => (106_751 * 86_400 + sr(64, 0, 85_635)) * G + any_ns(),
        2 => 9_223_372_036 * G + sr(64, 0, 854_775_807),
        3 => (sr(64, -106_751, -1) * 86_400 + sod()) * G,
        4 => (sr(64, -106_751, -1) * 86_400 + sod()) * G + pos_ns(),
        5 => (-106_752 * 86_400 + sr(64, 764, 86_399)) * G,
        6 => (-106_752 * 86_400 + sr(64, 764, 86_399)) * G + pos_ns(),
        _ => i64::MIN + sr(64, 0, 854_775_807),
    }
}
