use super::st;
use super::txt::*;
use crate::api::*;
const FILE: u32 = 23;
extern "C" {
    fn STRING_TO_LINT(s: *const u8) -> i64;
    fn STRING_TO_DINT(s: *const u8) -> i32;
}
#[derive(Clone, Copy, PartialEq)]
enum Ty {
    L,
    D,
}
use Ty::*;
unsafe fn conv(t: Ty, s: *const u8) -> i64 {
    if t == L { STRING_TO_LINT(s) } else { STRING_TO_DINT(s) as i64 }
}
const PREFIX: [(&[u8], u64); 8] = [(b"", 10), (b"16#", 16), (b"0x", 16), (b"0X", 16), (b"8#", 8), (b"2#", 2), (b"0b", 2), (b"0B", 2)];
/// a text under construction; the memory ends behind its terminator
struct Src {
    p: *mut u8,
    n: usize,
}
impl Src {
    fn new(room: usize) -> Src {
        Src { p: buf(room + 1), n: 0 }
    }
    unsafe fn c(&mut self, x: u8) {
        *self.p.add(self.n) = x;
        self.n += 1;
    }
    unsafe fn s(&mut self, x: &[u8]) {
        let mut i = 0;
        while i < x.len() {
            self.c(x[i]);
            i += 1;
        }
    }
}
/// the same memory with another number
#[no_mangle]
pub unsafe extern "C" fn h_c23_dq_again() {
    let t = [L, D][choose(2) as usize];
    let p = buf(4);
    let mut i = 0;
    while i < 2 {
        let (a, b) = (ur(8, 1, 9), ur(8, 0, 9));
        let neg = choose(2) == 1;
        let o = neg as usize;
        *p = b'-';
        *p.add(o) = b'0' + a as u8;
        *p.add(o + 1) = b'0' + b as u8;
        *p.add(o + 2) = 0;
        let v = (a * 10 + b) as i64;
        check!(conv(t, p) == if neg { -v } else { v });
        i += 1;
    }
}
/// value of a digit, 99 for any other byte
fn digit(c: u8) -> u64 {
    if c >= b'0' && c <= b'9' {
        (c - b'0') as u64
    } else if c >= b'a' && c <= b'f' {
        (c - b'a') as u64 + 10
    } else if c >= b'A' && c <= b'F' {
        (c - b'A') as u64 + 10
    } else {
        99
    }
}
/// the number a text of at most a few characters denotes
unsafe fn reference(b: *const u8, n: usize) -> Option<i64> {
    let (mut at, mut radix) = (0, 10);
    let c = |i: usize| if i < n { *b.add(i) } else { 0 };
    if c(0) == b'1' && c(1) == b'6' && c(2) == b'#' {
        (at, radix) = (3, 16);
    } else if c(0) == b'0' && (c(1) == b'x' || c(1) == b'X') {
        (at, radix) = (2, 16);
    } else if c(0) == b'8' && c(1) == b'#' {
        (at, radix) = (2, 8);
    } else if c(0) == b'2' && c(1) == b'#' || c(0) == b'0' && (c(1) == b'b' || c(1) == b'B') {
        (at, radix) = (2, 2);
    }
    let neg = c(at) == b'-';
    if neg || c(at) == b'+' {
        at += 1;
    }
    if at >= n {
        return None;
    }
    let mut v = 0;
    while at < n {
        let d = digit(c(at));
        if d >= radix {
            return None;
        }
        v = v * radix + d;
        at += 1;
    }
    Some(if neg { -(v as i64) } else { v as i64 })
}
/// every text of n bytes
unsafe fn short(t: Ty, n: usize) {
    let mut s = Src::new(n);
    let mut i = 0;
    while i < n {
        s.c(ur(8, 1, 255) as u8);
        i += 1;
    }
    match reference(s.p, n) {
        Some(v) => check!(conv(t, s.p) == v),
        None => must_panic!(conv(t, s.p)),
    }
}
/// a digit of the radix; class: 0-9, a-f or A-F
unsafe fn any_digit(s: &mut Src, radix: u64, class: u64) -> u64 {
    let (base, off, top) = match class {
        0 => (b'0', 0, if radix < 10 { radix - 1 } else { 9 }),
        1 => (b'a', 10, 5),
        _ => (b'A', 10, 5),
    };
    let x = ur(64, 0, top);
    s.c(base + x as u8);
    x + off
}
unsafe fn sign(s: &mut Src) -> bool {
    match choose(3) {
        0 => false,
        1 => {
            s.c(b'+');
            false
        }
        _ => {
            s.c(b'-');
            true
        }
    }
}
/// all numbers with at most `max` digits
unsafe fn digits(t: Ty, p: usize, max: u64) {
    let (pre, radix) = PREFIX[p];
    let n = choose(max) + 1;
    let mut s = Src::new(pre.len() + 1 + n as usize);
    s.s(pre);
    let neg = sign(&mut s);
    // one digit of each class among digits of each class
    let (all, one, at) = if radix == 16 { (choose(3), choose(3), choose(n)) } else { (0, 0, 0) };
    let mut v = 0u64;
    let mut i = 0;
    while i < n {
        v = v * radix + any_digit(&mut s, radix, if i == at { one } else { all });
        i += 1;
    }
    *s.p.add(s.n) = 0;
    let v = v as i64;
    check!(conv(t, s.p) == if neg { -v } else { v });
}
/// numbers around the limits of the type: those within, with leading zeros, those beyond
unsafe fn limits(t: Ty, over: bool) -> (*const u8, i64) {
    let k = choose(4);
    let neg = choose(2) == 1;
    let limit: &[u8] = match (t, k, neg) {
        (L, 0, false) => b"9223372036854775807",
        (L, 0, true) => b"9223372036854775808",
        (D, 0, false) => b"2147483647",
        (D, 0, true) => b"2147483648",
        (L, 1, false) => b"7FFFFFFFFFFFFFFF",
        (L, 1, true) => b"8000000000000000",
        (D, 1, false) => b"7FFFFFFF",
        (D, 1, true) => b"80000000",
        (L, 2, false) => b"777777777777777777777",
        (L, 2, true) => b"1000000000000000000000",
        (D, 2, false) => b"17777777777",
        (D, 2, true) => b"20000000000",
        (L, _, false) => b"111111111111111111111111111111111111111111111111111111111111111",
        (L, _, true) => b"1000000000000000000000000000000000000000000000000000000000000000",
        (D, _, false) => b"1111111111111111111111111111111",
        (D, _, true) => b"10000000000000000000000000000000",
    };
    let (pre, radix) = PREFIX[[0, 1, 4, 6][k as usize]];
    let n = limit.len();
    let mut s = Src::new(pre.len() + 3 + n);
    s.s(pre);
    if neg {
        s.c(b'-');
    }
    let mut v = 0u64;
    if over && choose(2) == 0 {
        // one digit more
        v = ur(64, 1, if radix < 10 { radix - 1 } else { 9 });
        s.c(b'0' + v as u8);
        let mut i = 0;
        while i < n {
            any_digit(&mut s, radix, 0);
            i += 1;
        }
    } else {
        if choose(2) == 1 {
            s.c(b'0');
            s.c(b'0');
        }
        // the first `same` digits are those of the limit, the next one is less, or greater
        let same = choose(n as u64 + 1 - over as u64) as usize;
        let mut i = 0;
        while i < n {
            let l = digit(limit[i]);
            let d = if i < same {
                s.c(limit[i]);
                l
            } else if i == same {
                let (lo, hi) = if over { (l + 1, radix - 1) } else { (0, l.wrapping_sub(1)) };
                if lo > hi || hi == u64::MAX {
                    assume(false);
                }
                // 10 and more only where the limit is hexadecimal
                if hi < 10 || choose(2) == 0 {
                    if lo > 9 {
                        assume(false);
                    }
                    let x = ur(64, lo, if hi < 10 { hi } else { 9 });
                    s.c(b'0' + x as u8);
                    x
                } else {
                    let lo = if lo < 10 { 10 } else { lo };
                    let x = ur(64, lo, hi);
                    s.c(b'a' + (x - 10) as u8);
                    x
                }
            } else {
                any_digit(&mut s, radix, 0)
            };
            v = v.wrapping_mul(radix).wrapping_add(d);
            i += 1;
        }
    }
    *s.p.add(s.n) = 0;
    (s.p, if neg { (v as i64).wrapping_neg() } else { v as i64 })
}
unsafe fn within(t: Ty) {
    let (p, v) = limits(t, false);
    check!(conv(t, p) == v);
}
unsafe fn beyond(t: Ty) {
    let (p, _) = limits(t, true);
    must_panic!(conv(t, p));
}
/// digits among which there is one other byte, at any place
unsafe fn junk(t: Ty, max: u64) {
    let (pre, radix) = PREFIX[choose(8) as usize];
    let n = choose(max) + 1;
    let mut s = Src::new(pre.len() + 1 + n as usize);
    s.s(pre);
    sign(&mut s);
    let at = choose(n);
    let mut i = 0;
    while i < n {
        if i == at {
            let c = ur(8, 1, 255) as u8;
            assume(digit(c) >= radix);
            // not one more prefix, nor the sign
            assume(!(i < 3 && (c == b'#' || c == b'x' || c == b'X' || c == b'b' || c == b'B' || c == b'+' || c == b'-')));
            s.c(c);
        } else {
            any_digit(&mut s, radix, 0);
        }
        i += 1;
    }
    *s.p.add(s.n) = 0;
    must_panic!(conv(t, s.p));
}
macro_rules! h {
    ($($h:ident $r:ident $e:expr;)*) => { $(#[no_mangle] pub unsafe extern "C" fn $h() { $e } #[no_mangle] pub unsafe extern "C" fn $r() { $e })* };
}
h! {
    h_c23_dq_lint_short h_c23_rq_lint_short short(L, choose(6) as usize);
    h_c23_dq_dint_short h_c23_rq_dint_short short(D, choose(6) as usize);
    h_c23_dq_lint_dec h_c23_rq_lint_dec digits(L, 0, 18);
    h_c23_dq_dint_dec h_c23_rq_dint_dec digits(D, 0, 9);
    h_c23_dq_lint_hex h_c23_rq_lint_hex digits(L, 1 + choose(3) as usize, 15);
    h_c23_dq_dint_hex h_c23_rq_dint_hex digits(D, 1 + choose(3) as usize, 7);
    h_c23_dq_lint_oct h_c23_rq_lint_oct digits(L, 4, 21);
    h_c23_dq_dint_oct h_c23_rq_dint_oct digits(D, 4, 10);
    h_c23_dq_lint_bin h_c23_rq_lint_bin digits(L, 5 + choose(3) as usize, 63);
    h_c23_dq_dint_bin h_c23_rq_dint_bin digits(D, 5 + choose(3) as usize, 31);
    h_c23_dq_lint_within h_c23_rq_lint_within within(L);
    h_c23_dq_dint_within h_c23_rq_dint_within within(D);
    h_c23_dq_lint_beyond h_c23_rq_lint_beyond beyond(L);
    h_c23_dq_dint_beyond h_c23_rq_dint_beyond beyond(D);
    h_c23_dq_lint_junk h_c23_rq_lint_junk junk(L, 5);
    h_c23_dt_lint_short h_c23_rt_lint_short short(L, choose(9) as usize);
    h_c23_dt_dint_short h_c23_rt_dint_short short(D, choose(9) as usize);
    h_c23_dt_lint_junk h_c23_rt_lint_junk junk(L, 20);
    h_c23_dt_dint_junk h_c23_rt_dint_junk junk(D, 11);
    h_c23_dq_dint_junk h_c23_rq_dint_junk junk(D, 5);
}
