//! Texts that fill their ST variables: nothing is written outside the result or the local variables.
//! Functions written in ST are translated by stgen.py (module stl); buffers are as long as the variables.
use super::stl;
use crate::api::*;
const FILE: u32 = 43;
const MAX: usize = 2048;
const LEN: usize = MAX + 1;
trait Unit: Copy + PartialEq {
    fn of(c: u16) -> Self;
    fn any() -> Self;
    fn ascii() -> Self;
    /// units of a character beyond 0xffff
    const WIDE: usize;
    unsafe fn wide(p: *mut Self);
}
impl Unit for u8 {
    fn of(c: u16) -> u8 {
        c as u8
    }
    fn any() -> u8 {
        ur(8, 1, 0x7f) as u8
    }
    fn ascii() -> u8 {
        ur(8, 1, 0x7f) as u8
    }
    const WIDE: usize = 4;
    unsafe fn wide(p: *mut u8) {
        *p = ur(8, 0xf1, 0xf3) as u8;
        *p.add(1) = ur(8, 0x80, 0xbf) as u8;
        *p.add(2) = ur(8, 0x80, 0xbf) as u8;
        *p.add(3) = ur(8, 0x80, 0xbf) as u8;
    }
}
impl Unit for u16 {
    fn of(c: u16) -> u16 {
        c
    }
    fn any() -> u16 {
        ur(16, 1, 0x7fff) as u16
    }
    fn ascii() -> u16 {
        ur(16, 1, 0x7f) as u16
    }
    const WIDE: usize = 2;
    unsafe fn wide(p: *mut u16) {
        *p = ur(16, 0xd800, 0xdbff) as u16;
        *p.add(1) = ur(16, 0xdc00, 0xdfff) as u16;
    }
}
unsafe fn room<U: Unit>(n: usize) -> *mut U {
    buf(n * core::mem::size_of::<U>()) as *mut U
}
/// n characters, three of them arbitrary (two up to 0x7f), terminated
unsafe fn text<U: Unit>(n: usize) -> *const U {
    let p = room::<U>(n + 1);
    let mut i = 0;
    while i < n {
        *p.add(i) = U::of(b'a' as u16 + (i % 26) as u16);
        i += 1;
    }
    *p = U::any();
    *p.add(n / 2) = U::ascii();
    *p.add(n - 1) = U::ascii();
    *p.add(n) = U::of(0);
    p
}
/// n units, the last ones of them a character beyond 0xffff
unsafe fn ends_wide<U: Unit>(n: usize) -> *const U {
    let p = room::<U>(n + 1);
    let mut i = 0;
    while i < n {
        *p.add(i) = U::of(b'a' as u16 + (i % 26) as u16);
        i += 1;
    }
    U::wide(p.add(n - U::WIDE));
    *p.add(n) = U::of(0);
    p
}
unsafe fn same<U: Unit>(a: *const U, b: *const U, n: usize) -> bool {
    let mut ok = true;
    let mut i = 0;
    while i < n {
        ok &= *a.add(i) == *b.add(i);
        i += 1;
    }
    ok
}
unsafe fn at(n: usize) -> usize {
    [0, 1, n / 2, n - 1, n][choose(5) as usize]
}
macro_rules! edit {
    ($name:ident $tail:ident $ins:ident $rep:ident $u:ty: $left:ident $right:ident $mid:ident $insert:ident $delete:ident $replace:ident) => {
        /// the result fits
        unsafe fn $name() {
            let zero = <$u>::of(0);
            match choose(6) {
                0 => {
                    let (s, l) = (text::<$u>(MAX), at(MAX));
                    let r = room::<$u>(stl::len::$left);
                    stl::$left(s as _, l as i32, r);
                    check!(same(r, s, l) & (*r.add(l) == zero));
                }
                1 => {
                    let (s, l) = (text::<$u>(MAX), at(MAX));
                    let r = room::<$u>(stl::len::$right);
                    stl::$right(s as _, l as i32, r);
                    check!(same(r, s.add(MAX - l), l) & (*r.add(l) == zero));
                }
                2 => {
                    let (s, l) = (text::<$u>(MAX), at(MAX));
                    let p = if l == MAX { 0 } else { choose(2) as usize * (MAX - l - 1) };
                    let r = room::<$u>(stl::len::$mid);
                    stl::$mid(s as _, l as i32, p as i32 + 1, r);
                    check!(same(r, s.add(p), l) & (*r.add(l) == zero));
                }
                3 => {
                    let (s, l) = (text::<$u>(MAX), at(MAX));
                    let p = if l == MAX { 0 } else { choose(2) as usize * (MAX - l - 1) };
                    let r = room::<$u>(stl::len::$delete);
                    stl::$delete(s as _, l as i32, p as i32 + 1, r);
                    check!(same(r, s, p) & same(r.add(p), s.add(p + l), MAX - p - l) & (*r.add(MAX - l) == zero));
                }
                4 => {
                    let (s, t, p) = (text::<$u>(MAX - 3), text::<$u>(3), at(MAX - 3));
                    let r = room::<$u>(stl::len::$insert);
                    stl::$insert(s as _, t as _, p as i32, r);
                    check!(same(r, s, p) & same(r.add(p), t, 3) & same(r.add(p + 3), s.add(p), MAX - 3 - p) & (*r.add(MAX) == zero));
                }
                _ => {
                    let (s, t) = (text::<$u>(MAX), text::<$u>(3));
                    let p = [0, 1, MAX / 2, MAX - 3][choose(4) as usize];
                    let r = room::<$u>(stl::len::$replace);
                    stl::$replace(s as _, t as _, 3, p as i32 + 1, r);
                    check!(same(r, s, p) & same(r.add(p), t, 3) & same(r.add(p + 3), s.add(p + 3), MAX - 3 - p) & (*r.add(MAX) == zero));
                }
            }
        }
        /// the result fits and ends with a character of several units
        unsafe fn $tail() {
            const W: usize = <$u as Unit>::WIDE;
            let zero = <$u>::of(0);
            let k = choose(7);
            let s = ends_wide::<$u>(if k == 4 { MAX - W } else { MAX });
            let c = (MAX - W + 1) as i32;
            match k {
                0 => {
                    let r = room::<$u>(stl::len::$left);
                    stl::$left(s as _, c, r);
                    check!(same(r, s, MAX) & (*r.add(MAX) == zero));
                }
                1 => {
                    let r = room::<$u>(stl::len::$right);
                    stl::$right(s as _, c, r);
                    check!(same(r, s, MAX) & (*r.add(MAX) == zero));
                }
                2 => {
                    let r = room::<$u>(stl::len::$mid);
                    stl::$mid(s as _, c, 1, r);
                    check!(same(r, s, MAX) & (*r.add(MAX) == zero));
                }
                3 => {
                    let r = room::<$u>(stl::len::$delete);
                    stl::$delete(s as _, 0, 1, r);
                    check!(same(r, s, MAX) & (*r.add(MAX) == zero));
                }
                4 => {
                    let t = ends_wide::<$u>(W);
                    let r = room::<$u>(stl::len::$insert);
                    let n = MAX - W;
                    if choose(2) == 0 {
                        stl::$insert(s as _, t as _, c - W as i32, r);
                        check!(same(r, s, n) & same(r.add(n), t, W) & (*r.add(MAX) == zero));
                    } else {
                        stl::$insert(s as _, t as _, 0, r);
                        check!(same(r, t, W) & same(r.add(W), s, n) & (*r.add(MAX) == zero));
                    }
                }
                5 => {
                    let t = ends_wide::<$u>(W);
                    let r = room::<$u>(stl::len::$replace);
                    stl::$replace(s as _, t as _, 1, c, r);
                    check!(same(r, s, MAX - W) & same(r.add(MAX - W), t, W) & (*r.add(MAX) == zero));
                }
                _ => {
                    // the last W characters in front of the last one give way
                    let t = ends_wide::<$u>(W);
                    let r = room::<$u>(stl::len::$replace);
                    let n = MAX - 2 * W;
                    stl::$replace(s as _, t as _, W as i32, n as i32 + 1, r);
                    check!(same(r, s, n) & same(r.add(n), t, W) & same(r.add(n + W), s.add(n + W), W) & (*r.add(MAX) == zero));
                }
            }
        }
        /// the result is longer than its variable
        unsafe fn $ins() {
            let (s, t) = (text::<$u>(MAX), text::<$u>(1));
            let r = room::<$u>(stl::len::$insert);
            stl::$insert(s as _, t as _, at(MAX) as i32, r);
        }
        unsafe fn $rep() {
            let (s, t) = (text::<$u>(MAX), text::<$u>(2));
            let r = room::<$u>(stl::len::$replace);
            stl::$replace(s as _, t as _, 1, 1, r);
        }
    };
}
edit!(edit8 tail8 insert8 replace8 u8: LEFT__STRING RIGHT__STRING MID__STRING INSERT__STRING DELETE__STRING REPLACE__STRING);
edit!(edit16 tail16 insert16 replace16 u16: LEFT__WSTRING RIGHT__WSTRING MID__WSTRING INSERT__WSTRING DELETE__WSTRING REPLACE__WSTRING);
unsafe fn recode() {
    if choose(2) == 0 {
        let (s, r) = (text::<u8>(MAX), room::<u16>(stl::len::STRING_TO_WSTRING));
        stl::STRING_TO_WSTRING(s as _, r);
        let mut ok = *r.add(MAX) == 0;
        let mut i = 0;
        while i < MAX {
            ok &= *r.add(i) == *s.add(i) as u16;
            i += 1;
        }
        check!(ok);
    } else {
        // characters of one byte each
        let (s, r) = (room::<u16>(LEN), room::<u8>(stl::len::WSTRING_TO_STRING));
        let mut i = 0;
        while i < MAX {
            *s.add(i) = 'z' as u16;
            i += 1;
        }
        *s.add(MAX) = 0;
        let c = ur(16, 1, 0x7f) as u16;
        let k = at(MAX - 1);
        *s.add(k) = c;
        stl::WSTRING_TO_STRING(s, r);
        let mut ok = *r.add(MAX) == 0;
        let mut i = 0;
        while i < MAX {
            ok &= *r.add(i) as u16 == *s.add(i);
            i += 1;
        }
        check!(ok);
    }
}
/// texts of which every character, or the last one, needs several units
unsafe fn recode_wide() {
    if choose(2) == 0 {
        let (s, r) = (ends_wide::<u8>(MAX), room::<u16>(stl::len::STRING_TO_WSTRING));
        stl::STRING_TO_WSTRING(s as _, r);
        let n = MAX - 4;
        check!((*r.add(n + 2) == 0) & (*r.add(n - 1) == *s.add(n - 1) as u16));
        check!((*r.add(n) >> 10 == 0x36) & (*r.add(n + 1) >> 10 == 0x37));
    } else {
        // 512 characters of four bytes each: the result fills its variable
        let (s, r) = (room::<u16>(MAX / 2 + 1), room::<u8>(stl::len::WSTRING_TO_STRING));
        let mut i = 0;
        while i < MAX / 2 {
            *s.add(i) = 0xd83d;
            *s.add(i + 1) = 0xde00;
            i += 2;
        }
        u16::wide(s.add(MAX / 2 - 2));
        *s.add(MAX / 2) = 0;
        stl::WSTRING_TO_STRING(s, r);
        check!((*r.add(MAX) == 0) & (*r.add(MAX - 4) >> 3 == 0x1e) & (*r.add(MAX - 1) >> 6 == 2));
        check!((*r == 0xf0) & (*r.add(1) == 0x9f) & (*r.add(2) == 0x98) & (*r.add(3) == 0x80));
    }
}
/// n characters of more than one byte
unsafe fn wide(n: usize) -> *mut u16 {
    let s = room::<u16>(n + 1);
    let mut i = 0;
    while i < n {
        *s.add(i) = 0x20ac;
        i += 1;
    }
    *s.add(n - 1) = ur(16, 0x80, 0x7fff) as u16;
    *s.add(n) = 0;
    s
}
unsafe fn narrow() {
    stl::WSTRING_TO_STRING(wide(MAX), room::<u8>(stl::len::WSTRING_TO_STRING));
}
/// not a number, in a WSTRING of any length up to the default one
unsafe fn parse() {
    let s = wide([80, 1, 26, 27, 79][choose(5) as usize]);
    match choose(4) {
        0 => must_panic!(stl::WSTRING_TO_LINT(s)),
        1 => must_panic!(stl::WSTRING_TO_DINT(s)),
        2 => must_panic!(stl::WSTRING_TO_LREAL(s)),
        _ => must_panic!(stl::WSTRING_TO_REAL(s)),
    }
}
macro_rules! h {
    ($($h:ident $e:expr;)*) => { $(#[no_mangle] pub unsafe extern "C" fn $h() { $e })* };
}
h! {
    h_c43_dq_string edit8();
    h_c43_dq_wstring edit16();
    h_c43_dq_string_wide tail8();
    h_c43_dq_wstring_wide tail16();
    h_c43_dq_recode_wide recode_wide();
    h_c43_dq_recode recode();
    h_c43_dq_insert_string insert8();
    h_c43_dq_insert_wstring insert16();
    h_c43_dq_replace_string replace8();
    h_c43_dq_replace_wstring replace16();
    h_c43_dq_narrow narrow();
    h_c43_dq_parse parse();
}
