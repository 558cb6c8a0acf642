use super::chr;
use super::st;
use super::tm;
use super::txt::*;
use crate::api::*;
const FILE: u32 = 24;
extern "C" {
    fn TIME_TO_STRING_EXT(x: i64, d: *mut u8) -> i32;
}
const UNIT: [&[u8]; 7] = [b"d", b"h", b"m", b"s", b"ms", b"us", b"ns"];
const NS: [i64; 7] = [86_400_000_000_000, 3_600_000_000_000, 60_000_000_000, 1_000_000_000, 1_000_000, 1_000, 1];
/// the ways a component's digits can look, from 0 on
const SHAPES: [u64; 7] = [6, 3, 2, 2, 3, 3, 3];
/// number (not zero) of a component: appended to the text with its unit; its value
unsafe fn part(t: Text, k: usize, shape: u64) -> (Text, i64) {
    // ranges of the digits
    let r: &[(u64, u64)] = match (k, shape) {
        (1, 1) => &[(1, 1), (0, 9)],
        (1, 2) => &[(2, 2), (0, 3)],
        (2, 1) | (3, 1) => &[(1, 5), (0, 9)],
        // 106751 is treated separately
        (0, 5) => match choose(3) {
            0 => &[(1, 1), (0, 0), (0, 5), (0, 9), (0, 9), (0, 9)],
            1 => &[(1, 1), (0, 0), (6, 6), (0, 6), (0, 9), (0, 9)],
            _ => &[(1, 1), (0, 0), (6, 6), (7, 7), (0, 4), (0, 9)],
        },
        _ => &[(1, 9), (0, 9), (0, 9), (0, 9), (0, 9), (0, 9)],
    };
    let n = if r.len() == 2 || (k, shape) == (0, 5) { r.len() } else { shape as usize + 1 };
    let mut t = t;
    let mut v = 0;
    let mut i = 0;
    while i < n {
        let x = ur(64, r[i].0, r[i].1);
        t = t.c(b'0' + x as u8);
        v = v * 10 + x as i64;
        i += 1;
    }
    (t.s(UNIT[k]), v)
}
unsafe fn check(t: Text, x: i64) {
    let d = To::new();
    TIME_TO_STRING_EXT(x, d.d);
    check!(d.has(&t));
}
fn start(neg: bool) -> Text {
    let t = Text::new();
    if neg { t.c(b'-') } else { t }
}
/// the components of the mask are not zero; their shapes are arbitrary, or the longest
unsafe fn mask(m: u64, long: bool) {
    chr::use_contracts();
    let neg = choose(2) == 1;
    let mut t = start(neg);
    let mut x = 0i64;
    let mut k = 0;
    while k < 7 {
        if m >> k & 1 == 1 {
            let (u, v) = part(t, k, if long { SHAPES[k] - 1 } else { choose(SHAPES[k]) });
            t = u;
            x += v * NS[k];
        }
        k += 1;
    }
    check(t, if neg { -x } else { x });
}
unsafe fn none() {
    chr::use_contracts();
    check(Text::new().s(b"0ns"), 0);
}
unsafe fn limits() {
    chr::use_contracts();
    match choose(2) {
        0 => check(Text::new().s(b"106751d23h47m16s854ms775us807ns"), i64::MAX),
        _ => check(Text::new().s(b"-106751d23h47m16s854ms775us808ns"), i64::MIN),
    }
}
/// the last day
unsafe fn last() {
    chr::use_contracts();
    let neg = choose(2) == 1;
    let t = start(neg).s(b"106751d");
    let (t, x) = match choose(3) {
        0 => (t, 0),
        1 => {
            let h = ur(64, 1, 9);
            (t.c(b'0' + h as u8).s(b"h"), h as i64 * NS[1])
        }
        _ => {
            let (m, s) = (ur(64, 1, 4), ur(64, 0, 6));
            let t = t.s(b"23h").c(b'0' + m as u8).s(b"m1").c(b'0' + s as u8).s(b"s");
            (t, 23 * NS[1] + m as i64 * NS[2] + (10 + s as i64) * NS[3])
        }
    };
    let x = 106_751 * NS[0] + x;
    check(t, if neg { -x } else { x });
}
/// every set of components, the longest numbers
unsafe fn long() {
    let m = choose(127) + 1;
    mask(m, true);
}
/// one component or two, all lengths
unsafe fn pairs() {
    let i = choose(7);
    let j = choose(i + 1);
    mask(1 << i | 1 << j, false);
}
unsafe fn all() {
    let m = choose(127) + 1;
    mask(m, false);
}
/// one call after the other
unsafe fn again() {
    chr::use_contracts();
    TIME_TO_STRING_EXT([0, 93_784_005_006_007, -1][choose(3) as usize], To::new().d);
    mask(1 << choose(7), false)
}
macro_rules! h {
    ($($h:ident $r:ident $e:expr;)*) => { $(#[no_mangle] pub unsafe extern "C" fn $h() { $e } #[no_mangle] pub unsafe extern "C" fn $r() { $e })* };
}
h! {
    h_c24_dq_again h_c24_rq_again again();
    h_c24_dq_zero h_c24_rq_zero none();
    h_c24_dq_limits h_c24_rq_limits limits();
    h_c24_dq_last h_c24_rq_last last();
    h_c24_dq_long h_c24_rq_long long();
    h_c24_dq_pairs h_c24_rq_pairs pairs();
    h_c24_dt_all h_c24_rt_all all();
}
