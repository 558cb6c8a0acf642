//! Text functions written in ST, translated by stgen.py (module stl), on top of the Rust half. Results are
//! STRING[2048] and WSTRING[2048].
use super::c26;
use super::c27;
use super::cal;
use super::chr;
use super::st::{self, Unit};
use super::stl;
use super::tm;
use super::txt::*;
use crate::api::*;
const FILE: u32 = 40;
extern "C" {
    fn LREAL_TO_STRING_EXT(x: f64, d: *mut u8) -> i32;
    fn TIME_TO_STRING_EXT(x: i64, d: *mut u8) -> i32;
    fn DATE_TO_STRING_EXT(x: i64, d: *mut u8) -> i32;
    fn TOD_TO_STRING_EXT(x: i64, d: *mut u8) -> i32;
    fn DT_TO_STRING_EXT(x: i64, d: *mut u8) -> i32;
    fn STRING_TO_LREAL(s: *const u8) -> f64;
    fn STRING_TO_REAL(s: *const u8) -> f32;
    fn STRING_TO_LINT(s: *const u8) -> i64;
    fn STRING_TO_DINT(s: *const u8) -> i32;
}
const LEN: usize = 2049;
/// a text of n characters, one of which may be of any other length; it lies in a buffer that ends behind its terminator
unsafe fn text<U: Unit>(n: usize) -> st::S<U> {
    let mut cls = [0u64; 5];
    if n > 0 {
        let k = choose(n as u64) as usize;
        cls[k] = choose(U::SHORT);
    }
    st::of(&cls[..n])
}
unsafe fn out<U: Unit>() -> *mut U {
    buf(LEN * core::mem::size_of::<U>()) as *mut U
}
/// the result is made of the characters i..j of every part
unsafe fn is<U: Unit>(r: *const U, parts: &[(&st::S<U>, usize, usize)]) -> bool {
    let mut ok = true;
    let mut at = 0;
    let mut k = 0;
    while k < parts.len() {
        let (p, a, b) = parts[k];
        let mut i = p.off[a] as usize;
        while i < p.off[b] as usize {
            ok &= *r.add(at) == *p.q.add(i);
            at += 1;
            i += 1;
        }
        k += 1;
    }
    ok & (*r.add(at) == U::zero())
}
macro_rules! edit {
    ($name:ident $u:ty: $left:ident $right:ident $mid:ident $insert:ident $delete:ident $replace:ident $max:expr) => {
        unsafe fn $name() {
            let n = choose($max + 1) as usize;
            let s = text::<$u>(n);
            let r = out::<$u>();
            let l = choose(n as u64 + 1) as usize;
            match choose(6) {
                0 => {
                    stl::$left(s.p, l as i32, r);
                    check!(is(r, &[(&s, 0, l)]));
                }
                1 => {
                    stl::$right(s.p, l as i32, r);
                    check!(is(r, &[(&s, n - l, n)]));
                }
                // a position within the text, and as many characters as follow at most
                2 => {
                    if n == 0 {
                        return;
                    }
                    let p = choose(n as u64) as usize;
                    if l > n - p {
                        return;
                    }
                    stl::$mid(s.p, l as i32, p as i32 + 1, r);
                    check!(is(r, &[(&s, p, p + l)]));
                }
                3 => {
                    let m = choose(3) as usize;
                    let t = text::<$u>(m);
                    stl::$insert(s.p, t.p, l as i32, r);
                    check!(is(r, &[(&s, 0, l), (&t, 0, m), (&s, l, n)]));
                }
                4 => {
                    if n == 0 {
                        return;
                    }
                    let p = choose(n as u64) as usize;
                    if l > n - p {
                        return;
                    }
                    stl::$delete(s.p, l as i32, p as i32 + 1, r);
                    check!(is(r, &[(&s, 0, p), (&s, p + l, n)]));
                }
                _ => {
                    if n == 0 {
                        return;
                    }
                    let p = choose(n as u64) as usize;
                    if l > n - p {
                        return;
                    }
                    let m = choose(3) as usize;
                    let t = text::<$u>(m);
                    stl::$replace(s.p, t.p, l as i32, p as i32 + 1, r);
                    check!(is(r, &[(&s, 0, p), (&t, 0, m), (&s, p + l, n)]));
                }
            }
        }
    };
}
edit!(edit8 u8: LEFT__STRING RIGHT__STRING MID__STRING INSERT__STRING DELETE__STRING REPLACE__STRING 4);
edit!(edit16 u16: LEFT__WSTRING RIGHT__WSTRING MID__WSTRING INSERT__WSTRING DELETE__WSTRING REPLACE__WSTRING 4);
/// the two encodings
unsafe fn recode() {
    let n = choose(4) as usize;
    let s = st::text_n::<u8>(n, u8::SHORT);
    let w = out::<u16>();
    stl::STRING_TO_WSTRING(s.p, w);
    let b = out::<u8>();
    stl::WSTRING_TO_STRING(w, b);
    // the characters of one byte
    let mut ok = true;
    let mut at = 0;
    let mut i = 0;
    while i < n {
        let u = s.off[i + 1] - s.off[i];
        if u == 1 {
            ok &= *w.add(at) == *s.q.add(s.off[i] as usize) as u16;
        }
        at += if u == 4 { 2 } else { 1 };
        i += 1;
    }
    check!(ok & (*w.add(at) == 0) & is(b, &[(&s, 0, n)]));
}
/// the STRING and WSTRING results hold the text
unsafe fn both(t: &Text, s: impl Fn(*mut u8), w: impl Fn(*mut u16)) {
    let (p, q) = (out::<u8>(), out::<u16>());
    let mut ok = true;
    if choose(2) == 0 {
        s(p);
        let mut i = 0;
        while i <= t.n {
            ok &= *p.add(i) == if i < t.n { t.b[i] } else { 0 };
            i += 1;
        }
        check!(ok);
    } else {
        w(q);
        let mut i = 0;
        while i <= t.n {
            ok &= *q.add(i) == if i < t.n { t.b[i] as u16 } else { 0 };
            i += 1;
        }
        check!(ok);
    }
}
/// a value of a few digits, with its text
unsafe fn number(neg: bool, k: usize) -> (i64, Text) {
    let x = num(k, (k > 1) as u8 | neg as u8);
    let t = Text::new();
    let t = if neg { t.c(b'-') } else { t };
    (if neg { -(x.v as i64) } else { x.v as i64 }, t.digits(&x.d, x.n))
}
unsafe fn ints() {
    let (neg, k) = (choose(2) == 1, choose(4) as usize + 1);
    let (v, t) = number(neg, k);
    match choose(5) {
        0 => {
            if neg || k > 2 {
                return;
            }
            both(&t, |d| stl::BYTE_TO_STRING(v as u8, d), |d| stl::BYTE_TO_WSTRING(v as u8, d));
        }
        1 => {
            if neg {
                return;
            }
            both(&t, |d| stl::DWORD_TO_STRING(v as u32, d), |d| stl::DWORD_TO_WSTRING(v as u32, d));
        }
        2 => {
            if neg {
                return;
            }
            both(&t, |d| stl::LWORD_TO_STRING(v as u64, d), |d| stl::LWORD_TO_WSTRING(v as u64, d));
        }
        3 => both(&t, |d| stl::DINT_TO_STRING(v as i32, d), |d| stl::DINT_TO_WSTRING(v as i32, d)),
        _ => both(&t, |d| stl::LINT_TO_STRING(v, d), |d| stl::LINT_TO_WSTRING(v, d)),
    }
}
/// the limits of the types
unsafe fn limits() {
    match choose(6) {
        0 => {
            let t = Text::new().s(b"255");
            both(&t, |d| stl::BYTE_TO_STRING(u8::MAX, d), |d| stl::BYTE_TO_WSTRING(u8::MAX, d));
        }
        1 => {
            let t = Text::new().s(b"4294967295");
            both(&t, |d| stl::DWORD_TO_STRING(u32::MAX, d), |d| stl::DWORD_TO_WSTRING(u32::MAX, d));
        }
        2 => {
            let t = Text::new().s(b"18446744073709551615");
            both(&t, |d| stl::LWORD_TO_STRING(u64::MAX, d), |d| stl::LWORD_TO_WSTRING(u64::MAX, d));
        }
        3 => {
            let t = Text::new().s(b"-2147483648");
            both(&t, |d| stl::DINT_TO_STRING(i32::MIN, d), |d| stl::DINT_TO_WSTRING(i32::MIN, d));
        }
        4 => {
            let t = Text::new().s(b"9223372036854775807");
            both(&t, |d| stl::LINT_TO_STRING(i64::MAX, d), |d| stl::LINT_TO_WSTRING(i64::MAX, d));
        }
        _ => {
            let t = Text::new().s(b"-9223372036854775808");
            both(&t, |d| stl::LINT_TO_STRING(i64::MIN, d), |d| stl::LINT_TO_WSTRING(i64::MIN, d));
        }
    }
}
/// whole numbers of n digits; float formatting is the model of c26
unsafe fn lreal(real: bool) {
    c26::prep();
    let n = if real { [1, 2][choose(2) as usize] } else { [1, 2, 5, 9, 14][choose(5) as usize] };
    let mut v = 0;
    let mut i = 0;
    let mut t = Text::new();
    let neg = choose(2) == 1;
    if neg {
        t = t.c(b'-');
    }
    while i < n {
        let d = ur(8, if i == 0 { 1 } else { 0 }, 9);
        v = v * 10 + d;
        c26::digit(i, d as u8);
        t = t.c(b'0' + d as u8);
        i += 1;
    }
    while i < n + 6 {
        c26::digit(i, 0);
        i += 1;
    }
    c26::SLOT[0].int = n;
    c26::SLOT[1].int = n;
    sym_stubs();
    t = t.s(b".000000");
    if real {
        let x = if neg { -(v as f32) } else { v as f32 };
        both(&t, |d| stl::REAL_TO_STRING(x, d), |d| stl::REAL_TO_WSTRING(x, d));
    } else {
        let x = if neg { -(v as f64) } else { v as f64 };
        both(&t, |d| stl::LREAL_TO_STRING(x, d), |d| stl::LREAL_TO_WSTRING(x, d));
    }
}
/// the text that the Rust half gives
unsafe fn taken(f: unsafe extern "C" fn(i64, *mut u8) -> i32, x: i64) -> Text {
    let d = out::<u8>();
    f(x, d);
    let mut t = Text::new();
    let mut i = 0;
    while i < 80 && *d.add(i) != 0 {
        t = t.c(*d.add(i));
        i += 1;
    }
    t
}
unsafe fn time() {
    chr::use_contracts();
    let x = match choose(3) {
        0 => sr(64, 1, 9) * 86_400 * tm::G + sr(64, 10, 59) * tm::G,
        1 => -(sr(64, 10, 23) * 3600 * tm::G + sr(64, 100, 999)),
        _ => sr(64, 1, 9) * 60 * tm::G + sr(64, 100, 999) * 1_000_000,
    };
    let t = taken(TIME_TO_STRING_EXT, x);
    if choose(2) == 0 {
        both(&t, |d| stl::TIME_TO_STRING(x, d), |d| stl::TIME_TO_WSTRING(x, d));
    } else {
        both(&t, |d| stl::LTIME_TO_STRING(x, d), |d| stl::LTIME_TO_WSTRING(x, d));
    }
}
unsafe fn dates() {
    chr::use_contracts();
    // whole seconds of a day of some months
    let (_, _, _, n, _) = cal::date_of(2);
    let x = n * tm::DAY + (sr(64, 0, 23) * 3600 + sr(64, 0, 59) * 60 + sr(64, 0, 59)) * tm::G;
    match choose(3) {
        0 => {
            let t = taken(DATE_TO_STRING_EXT, x);
            if choose(2) == 0 {
                both(&t, |d| stl::DATE_TO_STRING(x, d), |d| stl::DATE_TO_WSTRING(x, d));
            } else {
                both(&t, |d| stl::LDATE_TO_STRING(x, d), |d| stl::LDATE_TO_WSTRING(x, d));
            }
        }
        1 => {
            let t = taken(TOD_TO_STRING_EXT, x);
            if choose(2) == 0 {
                both(&t, |d| stl::TOD_TO_STRING(x, d), |d| stl::TOD_TO_WSTRING(x, d));
            } else {
                both(&t, |d| stl::LTOD_TO_STRING(x, d), |d| stl::LTOD_TO_WSTRING(x, d));
            }
        }
        _ => {
            let t = taken(DT_TO_STRING_EXT, x);
            if choose(2) == 0 {
                both(&t, |d| stl::DT_TO_STRING(x, d), |d| stl::DT_TO_WSTRING(x, d));
            } else {
                both(&t, |d| stl::LDT_TO_STRING(x, d), |d| stl::LDT_TO_WSTRING(x, d));
            }
        }
    }
}
/// digits with a sign, as both kinds of text
unsafe fn parse() {
    let (k, neg) = (choose(3) as usize + 1, choose(2) == 1);
    let x = num(k, 1);
    let t = Text::new();
    let t = if neg { t.c(b'-') } else { t };
    let t = t.digits(&x.d, k);
    let (s, w) = (buf(LEN), buf(LEN * 2) as *mut u16);
    let mut i = 0;
    while i <= t.n {
        let c = if i < t.n { t.b[i] } else { 0 };
        *s.add(i) = c;
        *w.add(i) = c as u16;
        i += 1;
    }
    let v = if neg { -(x.v as i64) } else { x.v as i64 };
    match choose(if k > 2 { 2 } else { 4 }) {
        0 => check!((stl::WSTRING_TO_LINT(w) == v) & (STRING_TO_LINT(s) == v)),
        1 => check!((stl::WSTRING_TO_DINT(w) as i64 == v) & (STRING_TO_DINT(s) as i64 == v)),
        2 => check!((stl::WSTRING_TO_LREAL(w) == v as f64) & (STRING_TO_LREAL(s) == v as f64)),
        _ => check!((stl::WSTRING_TO_REAL(w) == v as f32) & (STRING_TO_REAL(s) == v as f32)),
    }
}
/// ten digits above the range of DINT
unsafe fn dint_range() {
    let neg = choose(2) == 1;
    let (mut d, mut v) = ([4u8, 2, 9, 4, 9, 6, 0, 0, 0, 0], 4_294_960_000u64);
    let mut i = 6;
    let mut k = 1000;
    while i < 10 {
        let x = ur(64, 0, 9);
        d[i] = x as u8;
        v += x * k;
        k /= 10;
        i += 1;
    }
    let t = Text::new();
    let t = if neg { t.c(b'-') } else { t };
    let t = t.digits(&d, 10);
    let w = buf(LEN * 2) as *mut u16;
    let mut i = 0;
    while i <= t.n {
        *w.add(i) = if i < t.n { t.b[i] as u16 } else { 0 };
        i += 1;
    }
    let v = if neg { -(v as i64) } else { v as i64 };
    if choose(2) == 0 {
        check!(stl::WSTRING_TO_LINT(w) == v);
    } else {
        must_panic!(stl::WSTRING_TO_DINT(w));
    }
}
/// numbers next to the middle between two neighbours
unsafe fn middle() {
    let k = choose(4) as usize;
    let real = choose(2) == 0;
    let s = if real {
        c27::tail(c27::MID32[k].0, c27::MID32[k].2)
    } else {
        c27::tail(c27::MID64[k].0, c27::MID64[k].2)
    };
    let w = buf(LEN * 2) as *mut u16;
    let mut i = 0;
    while *s.add(i) != 0 {
        *w.add(i) = *s.add(i) as u16;
        i += 1;
    }
    *w.add(i) = 0;
    if real {
        check!(stl::WSTRING_TO_REAL(w).to_bits() == STRING_TO_REAL(s).to_bits());
    } else {
        check!(stl::WSTRING_TO_LREAL(w).to_bits() == STRING_TO_LREAL(s).to_bits());
    }
}
macro_rules! h {
    ($($h:ident $e:expr;)*) => { $(#[no_mangle] pub unsafe extern "C" fn $h() { $e })* };
}
h! {
    h_c40_dq_edit_string edit8();
    h_c40_dq_edit_wstring edit16();
    h_c40_dq_recode recode();
    h_c40_dq_ints ints();
    h_c40_dq_limits limits();
    h_c40_dq_lreal lreal(false);
    h_c40_dq_real lreal(true);
    h_c40_dq_time time();
    h_c40_dq_dates dates();
    h_c40_dq_parse parse();
    h_c40_dq_middle middle();
    h_c40_dq_dint_range dint_range();
}
