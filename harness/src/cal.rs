//! Every 64-bit nanosecond count together with its calendar date and time of day. Years are put together from
//! 400-, 100- and 4-year periods, so that the day number is a linear term.
use super::chr;
use super::tm;
use crate::api::*;
const G: i64 = 1_000_000_000;
/// day number of 1970-01-01
pub const EPOCH: i64 = 719_163;
#[derive(Clone, Copy)]
pub struct Inst {
    pub t: i64,
    pub y: i64,
    pub m: u32,
    pub d: u32,
    pub h: u32,
    pub mi: u32,
    pub s: u32,
    pub ns: u32,
    /// midnight of the day, in seconds
    pub mid: i64,
}
/// year - 1 = 400 c + 100 a + 4 b + e
fn year(c: i64, a: i64, b: i64, e: i64) -> (i64, i64) {
    let y = 400 * c + 100 * a + 4 * b + e + 1;
    let before = 365 * (y - 1) + (100 * c + 25 * a + b) - (4 * c + a) + c;
    (y, before)
}
/// a case of the years lo..=hi of a century: (year, day number before it, leap). Five cases.
pub fn year_case(k: u64, c: i64, a: i64, lo: i64, hi: i64) -> (i64, i64, bool) {
    // k: e, or the century's last year
    let e = if k == 4 { 3 } else { k as i64 };
    let z = 400 * c + 100 * a + e + 1;
    let mut l = (lo - z + 3).div_euclid(4);
    let mut h = (hi - z).div_euclid(4);
    if e == 3 {
        // the leap year rule has an exception for the last year
        if k == 4 {
            l = if l > 24 { l } else { 24 };
        } else {
            h = if h < 23 { h } else { 23 };
        }
    }
    if l > h {
        assume(false);
    }
    let b = sr(64, l, h);
    let (y, before) = year(c, a, b, e);
    (y, before, e == 3 && (k != 4 || a == 3))
}
/// 400-year and 100-year period, years, months and days of the groups within which the date is symbolic
const GROUPS: [(i64, i64, i64, i64, u64, u64, u64, u64); 12] = [
    (4, 3, 1970, 2000, 1, 12, 1, 31),
    (4, 3, 1901, 1969, 1, 12, 1, 31),
    (5, 0, 2001, 2100, 1, 12, 1, 31),
    (5, 1, 2101, 2200, 1, 12, 1, 31),
    (5, 2, 2201, 2261, 1, 12, 1, 31),
    (5, 2, 2262, 2262, 1, 3, 1, 31),
    (5, 2, 2262, 2262, 4, 4, 1, 10),
    (4, 0, 1677, 1677, 9, 9, 22, 30),
    (4, 0, 1677, 1677, 10, 12, 1, 31),
    (4, 0, 1678, 1700, 1, 12, 1, 31),
    (4, 1, 1701, 1800, 1, 12, 1, 31),
    (4, 2, 1801, 1900, 1, 12, 1, 31),
];
/// a date all of whose instants fit 64 bits, known to the contracts; its day number relative to 1970; before 1970?
pub unsafe fn date() -> (i64, u32, u32, i64, bool) {
    date_of(12)
}
/// dates of the first n groups
pub unsafe fn date_of(n: u64) -> (i64, u32, u32, i64, bool) {
    let (c, a, lo, hi, ml, mh, dl, dh) = GROUPS[choose(n) as usize];
    // the year's place in the four-year period is known where there is just one
    let e = if lo == hi { [4, ((lo - 1) % 4) as u64][(lo % 100 != 0) as usize] } else { choose(5) };
    let (y, before, leap) = year_case(e, c, a, lo, hi);
    let m = ur(32, ml, mh) as u32;
    let d = ur(32, dl, dh) as u32;
    assume(d <= chr::dim(leap, m));
    (y, m, d, chr::know(before, leap, y, m, d) - EPOCH, hi < 1970)
}
pub unsafe fn inst() -> Inst {
    inst_of(12)
}
pub unsafe fn inst_of(n: u64) -> Inst {
    inst_with(n, |r| match r {
        Frac::Any => sr(64, 0, G - 1),
        // truncating division of negative counts treats whole seconds differently
        Frac::Neg => if choose(2) == 0 { 0 } else { sr(64, 1, G - 1) },
        Frac::Upto => sr(64, 0, 854_775_807),
        Frac::From => 145_224_192 + sr(64, 0, 854_775_807),
    })
}
/// which fractions of a second are asked for: any, any (before 1970), up to 854775807 ns, from 145224192 ns on
pub enum Frac {
    Any,
    Neg,
    Upto,
    From,
}
/// every instant (of the first n groups of dates, the first and the last day), the fraction of whose second is given by f
/// (no groups: of the first and the last day)
pub unsafe fn inst_with(n: u64, mut f: impl FnMut(Frac) -> i64) -> Inst {
    match if n == 0 { choose(4) + 1 } else { choose(5) } {
        0 => {
            let (y, m, d, n, neg) = date_of(n);
            let (h, mi, s) = (ur(32, 0, 23) as u32, ur(32, 0, 59) as u32, ur(32, 0, 59) as u32);
            let ns = f(if neg { Frac::Neg } else { Frac::Any });
            let mid = n * 86_400;
            let t = (mid + (h * 3600 + mi * 60 + s) as i64) * G + ns;
            Inst { t, y, m, d, h, mi, s, ns: ns as u32, mid }
        }
        // the first and the last day are not complete
        1 => edge(2262, 4, 11, 106_751, sr(64, 0, 85_635), f(Frac::Any)),
        2 => edge(1677, 9, 21, -106_752, sr(64, 764, 86_399), f(Frac::Neg)),
        3 => edge(2262, 4, 11, 106_751, 85_636, f(Frac::Upto)),
        _ => {
            let ns = f(Frac::From);
            let mut i = edge(1677, 9, 21, -106_752, 763, ns);
            // cannot be put together from the day's midnight
            i.t = i64::MIN + (ns - 145_224_192);
            i
        }
    }
}
unsafe fn edge(y: i64, m: u32, d: u32, n: i64, s: i64, ns: i64) -> Inst {
    let day = chr::know(chr::before(y), chr::leap(y), y, m, d);
    let mid = (day - EPOCH) * 86_400;
    let t = (mid + s).wrapping_mul(G).wrapping_add(ns);
    let q = s as u32;
    Inst { t, y, m, d, h: q / 3600, mi: q / 60 % 60, s: q % 60, ns: ns as u32, mid }
}
