//! Expected texts and the 81-byte destination of the *_TO_STRING conversions.
use super::st::Dst;
use crate::api::*;
pub const ROOM: usize = 81;
const SLACK: usize = 3;
pub struct Text {
    pub b: [u8; 96],
    pub n: usize,
}
impl Text {
    pub fn new() -> Text {
        Text { b: [0; 96], n: 0 }
    }
    pub fn c(mut self, x: u8) -> Text {
        self.b[self.n] = x;
        self.n += 1;
        self
    }
    pub fn s(mut self, x: &[u8]) -> Text {
        let mut i = 0;
        while i < x.len() {
            self = self.c(x[i]);
            i += 1;
        }
        self
    }
    /// exactly n digits
    pub fn digits(mut self, d: &[u8], n: usize) -> Text {
        let mut i = 0;
        while i < n {
            self = self.c(b'0' + d[i]);
            i += 1;
        }
        self
    }
}
/// a destination of 81 bytes with arbitrary content, between guards
pub struct To {
    all: Dst<u8>,
    pub d: *mut u8,
}
impl To {
    pub unsafe fn new() -> To {
        let all: Dst<u8> = Dst::new(ROOM + 2 * SLACK);
        let d = all.p.add(SLACK);
        To { all, d }
    }
    /// the text has n characters and a terminator, the surroundings are what they were
    pub unsafe fn ends(&self, n: usize) -> bool {
        let mut ok = *self.d.add(n) == 0;
        let mut i = 0;
        while i < SLACK {
            ok &= *self.all.p.add(i) == *self.all.old.add(i);
            i += 1;
        }
        ok & self.all.same_from(SLACK + ROOM)
    }
    /// the destination holds the text and a terminator, the surroundings are what they were
    pub unsafe fn has(&self, t: &Text) -> bool {
        let mut ok = self.ends(t.n);
        let mut i = 0;
        while i < t.n {
            ok &= *self.d.add(i) == t.b[i];
            i += 1;
        }
        ok
    }
}
/// a number by its digits, most significant first; the first one is not zero unless it is the only one
pub struct Num {
    pub d: [u8; 20],
    pub n: usize,
    pub v: u64,
}
pub unsafe fn num(n: usize, first: u8) -> Num {
    let mut d = [0u8; 20];
    let mut v: u64 = 0;
    let mut i = 0;
    while i < n {
        let lo = if i == 0 { first as u64 } else { 0 };
        let x = ur(64, lo, 9);
        d[i] = x as u8;
        v = v.wrapping_mul(10).wrapping_add(x);
        i += 1;
    }
    Num { d, n, v }
}
/// a number with as many digits as the limit, and not greater: the first k digits are those of the limit
pub unsafe fn upto(limit: &[u8]) -> Num {
    let n = limit.len();
    let k = choose(n as u64 + 1) as usize;
    let mut d = [0u8; 20];
    let mut v: u64 = 0;
    let mut i = 0;
    while i < n {
        let l = (limit[i] - b'0') as u64;
        let x = if i < k {
            l
        } else if i == k {
            let lo = (i == 0) as u64;
            if l <= lo {
                // nothing smaller, or a leading zero
                assume(false);
            }
            ur(64, lo, l - 1)
        } else {
            ur(64, 0, 9)
        };
        d[i] = x as u8;
        v = v.wrapping_mul(10).wrapping_add(x);
        i += 1;
    }
    Num { d, n, v }
}
