use super::st;
use super::txt::*;
use crate::api::*;
const FILE: u32 = 27;
extern "C" {
    fn STRING_TO_REAL(s: *const u8) -> f32;
    fn STRING_TO_LREAL(s: *const u8) -> f64;
}
/// m * 10^e, correctly rounded: both operands are exact
unsafe fn near64(m: u64, e: i64) -> f64 {
    const P: [f64; 23] = [1e0, 1e1, 1e2, 1e3, 1e4, 1e5, 1e6, 1e7, 1e8, 1e9, 1e10, 1e11, 1e12, 1e13, 1e14, 1e15, 1e16, 1e17, 1e18, 1e19, 1e20, 1e21, 1e22];
    if e < 0 { m as f64 / P[-e as usize] } else { m as f64 * P[e as usize] }
}
unsafe fn near32(m: u64, e: i64) -> f32 {
    const P: [f32; 11] = [1e0, 1e1, 1e2, 1e3, 1e4, 1e5, 1e6, 1e7, 1e8, 1e9, 1e10];
    if e < 0 { m as f32 / P[-e as usize] } else { m as f32 * P[e as usize] }
}
struct Src {
    p: *mut u8,
    n: usize,
}
impl Src {
    fn new(room: usize) -> Src {
        Src { p: buf(room + 1), n: 0 }
    }
    unsafe fn c(&mut self, x: u8) {
        *self.p.add(self.n) = x;
        self.n += 1;
    }
}
struct Dec {
    p: *mut u8,
    neg: bool,
    m: u64,
    e: i64,
}
/// sign, i digits, a point, f digits, an exponent
unsafe fn text(i: u64, f: u64, exps: u64) -> Dec {
    // 0: no exponent, otherwise from -exps to exps
    let x = choose(2 * exps + 2) as i64;
    let pt = if f == 0 { choose(2) == 1 } else { true };
    let sg = choose(3);
    let ex = x - 1 - exps as i64;
    let len = (sg > 0) as u64 + i + f + pt as u64 + if x == 0 { 0 } else { 2 + (ex < 0) as u64 + (ex.abs() > 9) as u64 };
    let mut s = Src::new(len as usize);
    if sg > 0 {
        s.c(if sg == 1 { b'+' } else { b'-' });
    }
    let mut m = 0;
    let mut k = 0;
    while k < i + f {
        if k == i {
            s.c(b'.');
        }
        let d = ur(64, 0, 9);
        s.c(b'0' + d as u8);
        m = m * 10 + d;
        k += 1;
    }
    if pt && f == 0 {
        s.c(b'.');
    }
    let mut e = -(f as i64);
    if x > 0 {
        e += ex;
        s.c(if sg == 1 { b'E' } else { b'e' });
        if ex < 0 {
            s.c(b'-');
        }
        let a = ex.unsigned_abs();
        if a > 9 {
            s.c(b'0' + (a / 10) as u8);
        }
        s.c(b'0' + (a % 10) as u8);
    }
    *s.p.add(s.n) = 0;
    Dec { p: s.p, neg: sg == 2, m, e }
}
unsafe fn lreal(mi: u64, mf: u64, exps: u64) {
    let (i, f) = (choose(mi + 1), choose(mf + 1));
    if i + f == 0 {
        assume(false);
    }
    let t = text(i, f, exps);
    if t.e < -22 || t.e > 22 {
        assume(false);
    }
    let v = near64(t.m, t.e);
    check!(STRING_TO_LREAL(t.p).to_bits() == (if t.neg { -v } else { v }).to_bits());
}
/// next to the middle between two neighbours, from where the last three of 19 digits tell
pub const MID32: [(&[u8], f32, bool); 4] = [
    // the even neighbour is below
    (b"16777217.00000000", 16777218.0, false),
    (b"16777216.99999999", 16777216.0, true),
    // the even neighbour is above
    (b"16777219.00000000", 16777220.0, true),
    (b"16777218.99999999", 16777218.0, true),
];
pub const MID64: [(&[u8], f64, bool); 4] = [
    (b"9007199254740993.", 9007199254740994.0, false),
    (b"9007199254740992.", 9007199254740992.0, true),
    (b"9007199254740995.", 9007199254740996.0, true),
    (b"9007199254740994.", 9007199254740994.0, true),
];
/// the head and three digits, not all zero unless that is allowed
pub unsafe fn tail(head: &[u8], all: bool) -> *const u8 {
    let mut s = Src::new(head.len() + 3);
    let mut i = 0;
    while i < head.len() {
        s.c(head[i]);
        i += 1;
    }
    // not the middle itself
    let one = if all { 3 } else { choose(3) };
    let mut i = 0;
    while i < 3 {
        s.c(b'0' + ur(8, (i == one) as u64, 9) as u8);
        i += 1;
    }
    s.p
}
unsafe fn real_middle(k: usize) {
    let (head, want, all) = MID32[k];
    check!(STRING_TO_REAL(tail(head, all)).to_bits() == want.to_bits());
}
unsafe fn lreal_middle(k: usize) {
    let (head, want, all) = MID64[k];
    check!(STRING_TO_LREAL(tail(head, all)).to_bits() == want.to_bits());
}
unsafe fn real(max: u64, exps: u64) {
    let n = choose(max) + 1;
    let i = choose(n + 1);
    let t = text(i, n - i, exps);
    if t.e < -10 || t.e > 10 {
        assume(false);
    }
    let v = near32(t.m, t.e);
    check!(STRING_TO_REAL(t.p).to_bits() == (if t.neg { -v } else { v }).to_bits());
}
fn is_digit(c: u8) -> bool {
    (c >= b'0') & (c <= b'9')
}
/// value of a text of a few bytes
/// (the digits of the exponent are enumerated)
unsafe fn reference(b: *mut u8, n: usize) -> Option<(bool, u64, i64)> {
    let c = |i: usize| if i < n { *b.add(i) } else { 0 };
    let mut at = 0;
    let neg = c(0) == b'-';
    if neg || c(0) == b'+' {
        at = 1;
    }
    let (mut m, mut e, mut digits) = (0u64, 0i64, 0);
    while is_digit(c(at)) {
        m = m * 10 + (c(at) - b'0') as u64;
        at += 1;
        digits += 1;
    }
    if c(at) == b'.' {
        at += 1;
        while is_digit(c(at)) {
            m = m * 10 + (c(at) - b'0') as u64;
            e -= 1;
            at += 1;
            digits += 1;
        }
    }
    if digits == 0 {
        return None;
    }
    if c(at) == b'e' || c(at) == b'E' {
        at += 1;
        let minus = c(at) == b'-';
        if minus || c(at) == b'+' {
            at += 1;
        }
        if !is_digit(c(at)) {
            return None;
        }
        let mut x = 0i64;
        while is_digit(c(at)) {
            *b.add(at) = sym_concretize(c(at) as u64) as u8;
            x = x * 10 + (c(at) - b'0') as i64;
            at += 1;
        }
        e += if minus { -x } else { x };
    }
    if at < n {
        return None;
    }
    Some((neg, m, e))
}
/// not one of inf, nan, infinity
unsafe fn word(b: *const u8, n: usize) -> bool {
    let is = |i: usize, x: u8| if i < n { (*b.add(i) | 32) == x } else { false };
    let at = if n > 0 && (*b == b'-' || *b == b'+') { 1 } else { 0 };
    (is(at, b'i') & is(at + 1, b'n') & is(at + 2, b'f')) | (is(at, b'n') & is(at + 1, b'a') & is(at + 2, b'n'))
}
unsafe fn any(n: usize) -> *mut u8 {
    let mut s = Src::new(n);
    let mut i = 0;
    while i < n {
        s.c(ur(8, 1, 255) as u8);
        i += 1;
    }
    assume(!word(s.p, n));
    s.p
}
/// every text of n bytes
unsafe fn lreal_short(n: usize) {
    let p = any(n);
    match reference(p, n) {
        Some((neg, m, e)) => {
            if e < -22 || e > 22 {
                assume(false);
            }
            let v = near64(m, e);
            check!(STRING_TO_LREAL(p).to_bits() == (if neg { -v } else { v }).to_bits());
        }
        None => must_panic!(STRING_TO_LREAL(p)),
    }
}
unsafe fn real_short(n: usize) {
    let p = any(n);
    match reference(p, n) {
        Some((neg, m, e)) => {
            if e < -10 || e > 10 {
                assume(false);
            }
            let v = near32(m, e);
            check!(STRING_TO_REAL(p).to_bits() == (if neg { -v } else { v }).to_bits());
        }
        None => must_panic!(STRING_TO_REAL(p)),
    }
}
macro_rules! h {
    ($($h:ident $r:ident $e:expr;)*) => { $(#[no_mangle] pub unsafe extern "C" fn $h() { $e } #[no_mangle] pub unsafe extern "C" fn $r() { $e })* };
}
h! {
    h_c27_dq_lreal h_c27_rq_lreal lreal(7, 7, 0);
    h_c27_dq_real h_c27_rq_real real(7, 0);
    h_c27_dq_lreal_exp h_c27_rq_lreal_exp lreal(7, 4, 22);
    h_c27_dq_real_exp h_c27_rq_real_exp real(7, 10);
    h_c27_dq_lreal_middle h_c27_rq_lreal_middle lreal_middle(choose(4) as usize);
    h_c27_dq_real_middle h_c27_rq_real_middle real_middle(choose(4) as usize);
    h_c27_dq_lreal_short h_c27_rq_lreal_short lreal_short(choose(6) as usize);
    h_c27_dq_real_short h_c27_rq_real_short real_short(choose(6) as usize);
    h_c27_dt_lreal_short h_c27_rt_lreal_short lreal_short(choose(8) as usize);
    h_c27_dt_real_short h_c27_rt_real_short real_short(choose(8) as usize);
    h_c27_dt_lreal_exp h_c27_rt_lreal_exp lreal(7, 7, 29);
}
