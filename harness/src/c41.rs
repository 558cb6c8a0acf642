//! Comparison functions and single characters in ST, translated by stgen.py (module stl).
use super::stl;
use crate::api::*;
const FILE: u32 = 41;
const N: usize = 81;
/// a STRING variable whose text has n bytes, one character of two bytes perhaps; whatever follows the terminator is
/// arbitrary
unsafe fn s8(n: usize) -> [u8; N] {
    let mut a = [0u8; N];
    let wide = if n > 1 { choose(n as u64) as usize } else { 0 };
    let mut i = 0;
    while i < n + 3 {
        if i != n {
            a[i] = if i > n {
                ur(8, 0, 0x7f) as u8
            } else if wide > 0 && i == wide - 1 {
                ur(8, 0xc2, 0xdf) as u8
            } else if wide > 0 && i == wide {
                ur(8, 0x80, 0xbf) as u8
            } else {
                ur(8, 1, 0x7f) as u8
            };
        }
        i += 1;
    }
    a
}
/// a WSTRING variable whose text has n characters of one word
unsafe fn s16(n: usize) -> [u16; N] {
    let mut a = [0u16; N];
    let high = if n > 0 { choose(n as u64 + 1) as usize } else { 0 };
    let mut i = 0;
    while i < n + 3 {
        if i != n {
            a[i] = if i < n && i + 1 == high {
                ur(16, 0xe000, 0xffff) as u16
            } else {
                ur(16, if i < n { 1 } else { 0 }, 0xd7ff) as u16
            };
        }
        i += 1;
    }
    a
}
/// -1, 0 or 1: the order by the first differing character, a proper prefix first
macro_rules! order {
    ($a:expr, $n:expr, $b:expr, $m:expr) => {{
        let mut o: i32 = ($n > $m) as i32 - ($n < $m) as i32;
        let mut i = if $n < $m { $n } else { $m };
        while i > 0 {
            i -= 1;
            let (x, y) = ($a[i], $b[i]);
            let d = (x > y) as i32 - (x < y) as i32;
            o = if d != 0 { d } else { o };
        }
        o
    }};
}
unsafe fn string() {
    let (n, m) = (choose(4) as usize, choose(4) as usize);
    let (a, b) = (s8(n), s8(m));
    let o = order!(a, n, b, m);
    match choose(3) {
        0 => check!(stl::STRING_GREATER(a, b) == (o > 0) as u8),
        1 => check!(stl::STRING_EQUAL(a, b) == (o == 0) as u8),
        _ => check!(stl::STRING_LESS(a, b) == (o < 0) as u8),
    }
}
unsafe fn wstring() {
    let (n, m) = (choose(4) as usize, choose(4) as usize);
    let (a, b) = (s16(n), s16(m));
    let o = order!(a, n, b, m);
    match choose(3) {
        0 => check!(stl::WSTRING_GREATER(a, b) == (o > 0) as u8),
        1 => check!(stl::WSTRING_EQUAL(a, b) == (o == 0) as u8),
        _ => check!(stl::WSTRING_LESS(a, b) == (o < 0) as u8),
    }
}
/// texts that fill the variable, differing only at one place, or not at all
unsafe fn full() {
    let mut a = [b'a'; N];
    a[N - 1] = 0;
    let mut b = a;
    let k = [0, 1, 40, N - 3, N - 2][choose(5) as usize];
    let (x, y) = (ur(8, 1, 0x7f) as u8, ur(8, 1, 0x7f) as u8);
    a[k] = x;
    b[k] = y;
    match choose(3) {
        0 => check!(stl::STRING_GREATER(a, b) == (x > y) as u8),
        1 => check!(stl::STRING_EQUAL(a, b) == (x == y) as u8),
        _ => check!(stl::STRING_LESS(a, b) == (x < y) as u8),
    }
}
/// the first character of a text
unsafe fn first() {
    let n = choose(4) as usize;
    if choose(2) == 0 {
        let mut a = s8(n);
        // a character of one byte
        assume(a[0] < 0x80);
        check!(stl::STRING_TO_CHAR(a.as_mut_ptr()) == a[0]);
    } else {
        let mut a = s16(n);
        check!(stl::WSTRING_TO_WCHAR(a.as_mut_ptr()) == a[0]);
    }
}
/// the text of one character
unsafe fn char8() {
    let r = buf(N);
    let c = ur(8, 1, 0x7f) as u8;
    stl::CHAR_TO_STRING(c, r);
    check!((*r == c) & (*r.add(1) == 0));
}
unsafe fn char16() {
    let r = buf(N * 2) as *mut u16;
    let c = if choose(2) == 0 { ur(16, 1, 0xd7ff) } else { ur(16, 0xe000, 0xffff) } as u16;
    stl::WCHAR_TO_WSTRING(c, r);
    check!((*r == c) & (*r.add(1) == 0));
}
macro_rules! h {
    ($($h:ident $e:expr;)*) => { $(#[no_mangle] pub unsafe extern "C" fn $h() { $e })* };
}
h! {
    h_c41_dq_string string();
    h_c41_dq_wstring wstring();
    h_c41_dq_full full();
    h_c41_dq_first first();
    h_c41_dq_char8 char8();
    h_c41_dq_char16 char16();
}
