use super::cal::{self, Frac, Inst};
use super::chr;
use super::st;
use super::tm;
use super::txt::*;
use crate::api::*;
const FILE: u32 = 25;
extern "C" {
    fn DATE_TO_STRING_EXT(x: i64, d: *mut u8) -> i32;
    fn TOD_TO_STRING_EXT(x: i64, d: *mut u8) -> i32;
    fn DT_TO_STRING_EXT(x: i64, d: *mut u8) -> i32;
}
/// the bytes at..at+n are the n digits of v
unsafe fn digits(p: *const u8, at: usize, n: usize, v: i64) -> bool {
    let mut ok = true;
    let mut x = 0;
    let mut i = 0;
    while i < n {
        let c = *p.add(at + i);
        ok &= (c >= b'0') & (c <= b'9');
        x = x * 10 + (c as i64 - 48);
        i += 1;
    }
    ok & (x == v)
}
unsafe fn date_at(p: *const u8, i: &Inst) -> bool {
    digits(p, 0, 4, i.y) & (*p.add(4) == b'-') & digits(p, 5, 2, i.m as i64) & (*p.add(7) == b'-') & digits(p, 8, 2, i.d as i64)
}
/// fraction: its digits
unsafe fn tod_at(p: *const u8, at: usize, i: &Inst, f: &Num) -> bool {
    let mut t = digits(p, at, 2, i.h as i64) & (*p.add(at + 2) == b':') & digits(p, at + 3, 2, i.mi as i64) & (*p.add(at + 5) == b':') & digits(p, at + 6, 2, i.s as i64);
    if f.n > 0 {
        t &= *p.add(at + 8) == b'.';
        let mut k = 0;
        while k < f.n {
            t &= *p.add(at + 9 + k) == f.d[k] + b'0';
            k += 1;
        }
    }
    t
}
/// an instant with the fraction of its second: none, or three, six or nine digits, the last three not all zero
unsafe fn inst(groups: u64, k: usize) -> (Inst, Num) {
    // the last digit that is not zero
    let last = if k == 0 { 0 } else { 3 * k - 3 + choose(3) as usize };
    let mut f = Num { d: [0; 20], n: 3 * k, v: 0 };
    let i = cal::inst_with(groups, |r| {
        let (limit, sign) = match r {
            Frac::Upto => (b"854775807", -1),
            Frac::From => (b"145224192", 1),
            _ => (b"000000000", 0),
        };
        // the first `same` digits are those of the limit
        let same = if sign == 0 {
            0
        } else if groups == 0 {
            9 * choose(2) as usize
        } else {
            choose(10) as usize
        };
        let mut j = 0;
        while j < 9 {
            let l = (limit[j] - b'0') as i64;
            let (mut lo, mut hi) = if k == 0 || j > last { (0, 0) } else { ((j == last) as i64, 9) };
            if sign != 0 && j < same {
                (lo, hi) = (if lo > l { lo } else { l }, if hi < l { hi } else { l });
            } else if sign < 0 && j == same {
                hi = if hi < l - 1 { hi } else { l - 1 };
            } else if sign > 0 && j == same {
                lo = if lo > l + 1 { lo } else { l + 1 };
            }
            if lo > hi {
                assume(false);
            }
            f.d[j] = ur(64, lo as u64, hi as u64) as u8;
            f.v = f.v * 10 + f.d[j] as u64;
            j += 1;
        }
        f.v as i64
    });
    (i, f)
}
unsafe fn date() {
    chr::use_contracts();
    let i = cal::inst();
    let d = To::new();
    DATE_TO_STRING_EXT(i.t, d.d);
    check!(date_at(d.d, &i) & d.ends(10));
}
unsafe fn tod(groups: u64) {
    chr::use_contracts();
    let (i, f) = inst(groups, choose(4) as usize);
    let d = To::new();
    TOD_TO_STRING_EXT(i.t, d.d);
    check!(tod_at(d.d, 0, &i, &f) & d.ends(8 + f.n + (f.n > 0) as usize));
}
unsafe fn dt(groups: u64, k: usize) {
    chr::use_contracts();
    let (i, f) = inst(groups, k);
    let d = To::new();
    DT_TO_STRING_EXT(i.t, d.d);
    check!(date_at(d.d, &i) & (*d.d.add(10) == b'-') & tod_at(d.d, 11, &i, &f) & d.ends(19 + f.n + (f.n > 0) as usize));
}
macro_rules! h {
    ($($h:ident $r:ident $e:expr;)*) => { $(#[no_mangle] pub unsafe extern "C" fn $h() { $e } #[no_mangle] pub unsafe extern "C" fn $r() { $e })* };
}
h! {
    h_c25_dq_date h_c25_rq_date date();
    h_c25_dq_tod h_c25_rq_tod tod(0);
    h_c25_dq_dt h_c25_rq_dt dt(12, 0);
    h_c25_dq_dt_fraction h_c25_rq_dt_fraction dt(0, choose(3) as usize + 1);
    h_c25_dt_tod_all h_c25_rt_tod_all tod(12);
    h_c25_dt_dt_all h_c25_rt_dt_all dt(12, choose(4) as usize);
}
