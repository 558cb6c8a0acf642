//! std's float formatting is a model here: any digits, in the form that trait, precision, sign and magnitude imply,
//! the same text for the same request. Natively it is the real thing.
use super::st;
use super::txt::*;
use crate::api::*;
use std::fmt;
const FILE: u32 = 26;
extern "C" {
    fn LREAL_TO_STRING_EXT(x: f64, d: *mut u8) -> i32;
    fn REAL_TO_STRING_EXT(x: f64, d: *mut u8) -> i32;
}
const FIXED: u8 = 0;
const EXP: u8 = 1;
const INF: u64 = 0x7ff << 52;
const DIGITS: usize = 24;
#[derive(Clone, Copy)]
pub struct Slot {
    used: bool,
    kind: u8,
    prec: usize,
    bits: u64,
    digits: [u8; DIGITS],
    /// digits before the point (fixed notation), digits of the exponent
    pub int: usize,
    exp: usize,
}
pub static mut SLOT: [Slot; 2] = [Slot { used: false, kind: 0, prec: 0, bits: 0, digits: [0; DIGITS], int: 16, exp: 3 }; 2];
/// one request of the check, another one of the library, should it differ
pub unsafe fn prep() {
    let mut k = 0;
    while k < 2 {
        let mut i = 0;
        while i < DIGITS {
            SLOT[k].digits[i] = b'0' + ur(8, 0, 9) as u8;
            i += 1;
        }
        k += 1;
    }
}
/// the number of digits before the point, if rounding cannot carry
const INT: [f64; 15] = [0.0, 1e1, 1e2, 1e3, 1e4, 1e5, 1e6, 1e7, 1e8, 1e9, 1e10, 1e11, 1e12, 1e13, 1e14];
/// the number of digits of the exponent, likewise
const EXPO: [(f64, f64, usize); 5] = [(1.0, 9.99e9, 1), (1e10, 9.99e99, 2), (1e100, f64::MAX, 3), (1e-9, 0.999, 1), (1e-99, 9.99e-10, 2)];
unsafe fn model(kind: u8, prec: usize, bits: u64) -> Text {
    let t = Text::new();
    let m = bits & (u64::MAX >> 1);
    if m > INF {
        return t.s(b"NaN");
    }
    let t = if bits >> 63 != 0 { t.c(b'-') } else { t };
    if m == INF {
        return t.s(b"inf");
    }
    let mut k = 0;
    if SLOT[0].used && !(SLOT[0].kind == kind && SLOT[0].prec == prec && SLOT[0].bits == bits) {
        k = 1;
    }
    SLOT[k].used = true;
    SLOT[k].kind = kind;
    SLOT[k].prec = prec;
    SLOT[k].bits = bits;
    let d = &SLOT[k].digits;
    let int = if kind == EXP {
        1
    } else if m < 1e15f64.to_bits() {
        SLOT[k].int
    } else {
        // does not fit
        90
    };
    let mut t = t;
    let mut n = 0;
    while n < int + prec {
        if n == int {
            t = t.c(b'.');
        }
        if t.n > 88 {
            return t;
        }
        t = t.c(d[n % DIGITS]);
        n += 1;
    }
    if kind == EXP {
        t = t.c(b'e');
        if m < 1f64.to_bits() {
            t = t.c(b'-');
        }
        n = 0;
        while n < SLOT[k].exp {
            t = t.c(d[DIGITS - 1 - n]);
            n += 1;
        }
    }
    t
}
unsafe fn put(kind: u8, bits: u64, f: &mut fmt::Formatter) -> fmt::Result {
    // without a precision: as many digits as it takes
    let t = model(kind, match f.precision() { Some(p) => p, None => 17 }, bits);
    if f.sign_plus() && bits >> 63 == 0 && bits <= INF {
        f.write_str("+")?;
    }
    if let Some(w) = f.width() {
        let mut n = t.n;
        while n < w {
            f.write_str(" ")?;
            n += 1;
        }
    }
    f.write_str(std::str::from_utf8_unchecked(std::slice::from_raw_parts(t.b.as_ptr(), t.n)))
}
#[export_name = "stub$core$fmt$float$__impl_core$fmt$Display_for_f64_$fmt"]
unsafe fn s_fixed(x: &f64, f: &mut fmt::Formatter) -> fmt::Result {
    put(FIXED, x.to_bits(), f)
}
#[export_name = "stub$core$fmt$float$__impl_core$fmt$LowerExp_for_f64_$fmt"]
unsafe fn s_exp(x: &f64, f: &mut fmt::Formatter) -> fmt::Result {
    put(EXP, x.to_bits(), f)
}
#[export_name = "stub$core$fmt$float$__impl_core$fmt$Display_for_f32_$fmt"]
unsafe fn s_fixed32(x: &f32, f: &mut fmt::Formatter) -> fmt::Result {
    put(FIXED, (*x as f64).to_bits(), f)
}
#[export_name = "stub$core$fmt$float$__impl_core$fmt$LowerExp_for_f32_$fmt"]
unsafe fn s_exp32(x: &f32, f: &mut fmt::Formatter) -> fmt::Result {
    put(EXP, (*x as f64).to_bits(), f)
}
#[export_name = "stub$vh$c26$platform"]
unsafe fn s_platform(kind: u8, x: f64) -> Text {
    model(kind, 6, x.to_bits())
}
#[inline(never)]
unsafe fn platform(kind: u8, x: f64) -> Text {
    let s = if kind == EXP { format!("{x:.6e}") } else { format!("{x:.6}") };
    Text::new().s(s.as_bytes())
}
unsafe fn run(f: unsafe extern "C" fn(f64, *mut u8) -> i32, kind: u8, lo: u64, hi: u64) {
    let neg = choose(2);
    let x = f64::from_bits(ur(64, lo, hi) | neg << 63);
    let t = platform(kind, x);
    let d = To::new();
    f(x, d.d);
    check!((t.n <= 80) & d.has(&t));
}
fn below(x: f64) -> u64 {
    let (a, b) = ((x - 0.01).to_bits(), x.to_bits() - 2);
    if a < b { a } else { b }
}
/// numbers whose text has a certain length
unsafe fn sure(f: unsafe extern "C" fn(f64, *mut u8) -> i32, digits: usize) {
    prep();
    sym_stubs();
    let n = choose(digits as u64 + 3) as usize;
    if n < digits {
        SLOT[0].int = n + 1;
        SLOT[1].int = n + 1;
        run(f, FIXED, INT[n].to_bits(), below(INT[n + 1]));
    } else {
        let (lo, hi, e) = EXPO[n - digits];
        SLOT[0].exp = e;
        SLOT[1].exp = e;
        let lo = if lo < INT[digits] { INT[digits] } else { lo };
        run(f, EXP, lo.to_bits(), hi.to_bits());
    }
}
/// numbers that rounding may carry to one digit more, and what is no number
unsafe fn other(f: unsafe extern "C" fn(f64, *mut u8) -> i32, digits: usize) {
    prep();
    sym_stubs();
    let n = choose(digits as u64 + 4) as usize;
    if n < digits {
        SLOT[0].int = n + 1 + choose(2) as usize;
        run(f, FIXED, below(INT[n + 1]) + 1, INT[n + 1].to_bits() - 1);
    } else {
        SLOT[0].exp = choose(3) as usize + 1;
        match n - digits {
            0 => run(f, EXP, INF, INF),
            1 => run(f, EXP, INF + 1, u64::MAX >> 1),
            2 => run(f, EXP, 9.99e9f64.to_bits().max(INT[digits].to_bits()), 1e10f64.to_bits().max(INT[digits].to_bits())),
            _ => run(f, EXP, 9.99e99f64.to_bits(), 1e100f64.to_bits()),
        }
    }
}
/// whole numbers: the text is known
unsafe fn whole(f: unsafe extern "C" fn(f64, *mut u8) -> i32, digits: usize) {
    prep();
    let n = choose(digits as u64) as usize + 1;
    let mut v = 0;
    let mut i = 0;
    while i < n {
        let d = ur(8, if i == 0 && n > 1 { 1 } else { 0 }, 9);
        v = v * 10 + d;
        digit(i, d as u8);
        i += 1;
    }
    while i < n + 6 {
        digit(i, 0);
        i += 1;
    }
    SLOT[0].int = n;
    SLOT[1].int = n;
    sym_stubs();
    let neg = choose(2) == 1;
    let x = if neg { -(v as f64) } else { v as f64 };
    let t = platform(FIXED, x);
    let d = To::new();
    f(x, d.d);
    check!((t.n <= 80) & d.has(&t));
}
pub unsafe fn digit(i: usize, d: u8) {
    SLOT[0].digits[i] = b'0' + d;
}
macro_rules! h {
    ($($h:ident $r:ident $e:expr;)*) => { $(#[no_mangle] pub unsafe extern "C" fn $h() { $e } #[no_mangle] pub unsafe extern "C" fn $r() { $e })* };
}
h! {
    h_c26_dq_lreal_sure h_c26_rq_lreal_sure sure(LREAL_TO_STRING_EXT, 14);
    h_c26_dq_lreal_other h_c26_rq_lreal_other other(LREAL_TO_STRING_EXT, 14);
    h_c26_dq_lreal_whole h_c26_rq_lreal_whole whole(LREAL_TO_STRING_EXT, 14);
    h_c26_dq_real_sure h_c26_rq_real_sure sure(REAL_TO_STRING_EXT, 6);
    h_c26_dq_real_other h_c26_rq_real_other other(REAL_TO_STRING_EXT, 6);
    h_c26_dq_real_whole h_c26_rq_real_whole whole(REAL_TO_STRING_EXT, 6);
}
