//! Arbitrary valid texts: the shape (number of characters, units per character) is chosen by case split, the
//! content is symbolic. Texts lie in memory that ends right behind their terminator.
use super::pat;
use crate::api::*;
pub const MAXC: usize = 400;
/// class of the characters up to 0x7f
pub const ASCII: u64 = 100;
pub trait Unit: Copy + PartialEq {
    /// number of character classes; the first SHORT of them have one class per encoded length
    const CLASSES: u64;
    const SHORT: u64;
    fn units(cls: u64) -> usize;
    unsafe fn put(p: *mut Self, cls: u64);
    fn zero() -> Self;
    fn of(x: u64) -> Self;
    fn num(self) -> u32;
    fn any() -> Self;
}
fn c8(lo: u64, hi: u64) -> u8 {
    ur(8, lo, hi) as u8
}
impl Unit for u8 {
    const CLASSES: u64 = 9;
    const SHORT: u64 = 4;
    fn units(cls: u64) -> usize {
        if cls == ASCII { 1 } else { [1, 2, 3, 4, 3, 3, 3, 4, 4][cls as usize] }
    }
    unsafe fn put(p: *mut u8, cls: u64) {
        match cls {
            0 | ASCII => *p = c8(1, 0x7f),
            1 => {
                *p = c8(0xc2, 0xdf);
                *p.add(1) = c8(0x80, 0xbf);
            }
            2 | 4 | 5 | 6 => {
                *p = match cls {
                    2 => c8(0xe1, 0xec),
                    4 => 0xe0,
                    5 => 0xed,
                    _ => c8(0xee, 0xef),
                };
                *p.add(1) = match cls {
                    4 => c8(0xa0, 0xbf),
                    5 => c8(0x80, 0x9f),
                    _ => c8(0x80, 0xbf),
                };
                *p.add(2) = c8(0x80, 0xbf);
            }
            _ => {
                *p = match cls {
                    3 => c8(0xf1, 0xf3),
                    7 => 0xf0,
                    _ => 0xf4,
                };
                *p.add(1) = match cls {
                    7 => c8(0x90, 0xbf),
                    8 => c8(0x80, 0x8f),
                    _ => c8(0x80, 0xbf),
                };
                *p.add(2) = c8(0x80, 0xbf);
                *p.add(3) = c8(0x80, 0xbf);
            }
        }
    }
    fn of(x: u64) -> u8 {
        x as u8
    }
    fn num(self) -> u32 {
        self as u32
    }
    fn zero() -> u8 {
        0
    }
    fn any() -> u8 {
        u8v()
    }
}
impl Unit for u16 {
    const CLASSES: u64 = 3;
    const SHORT: u64 = 3;
    fn units(cls: u64) -> usize {
        if cls == ASCII { 1 } else { [1, 2, 1][cls as usize] }
    }
    unsafe fn put(p: *mut u16, cls: u64) {
        match cls {
            0 => *p = ur(16, 1, 0xd7ff) as u16,
            ASCII => *p = ur(16, 1, 0x7f) as u16,
            2 => *p = ur(16, 0xe000, 0xffff) as u16,
            _ => {
                *p = ur(16, 0xd800, 0xdbff) as u16;
                *p.add(1) = ur(16, 0xdc00, 0xdfff) as u16;
            }
        }
    }
    fn of(x: u64) -> u16 {
        x as u16
    }
    fn num(self) -> u32 {
        self as u32
    }
    fn zero() -> u16 {
        0
    }
    fn any() -> u16 {
        u16v()
    }
}
#[derive(Clone, Copy)]
pub struct S<U> {
    pub p: *mut U,
    /// a copy for comparison
    pub q: *mut U,
    /// code units
    pub n: usize,
    /// characters
    pub c: usize,
    /// unit offset of every character, and of the end
    pub off: [u16; MAXC + 1],
}
pub fn ubuf<U>(n: usize) -> *mut U {
    buf(n * core::mem::size_of::<U>()) as *mut U
}
/// a text of the given classes
pub unsafe fn of<U: Unit>(cls: &[u64]) -> S<U> {
    pat::use_contracts();
    let mut off = [0u16; MAXC + 1];
    let mut n = 0;
    let mut i = 0;
    while i < cls.len() {
        off[i] = n as u16;
        n += U::units(cls[i]);
        i += 1;
    }
    off[i] = n as u16;
    let p: *mut U = ubuf(n + 1);
    let q: *mut U = ubuf(n + 1);
    let mut i = 0;
    while i < cls.len() {
        U::put(p.add(off[i] as usize), cls[i]);
        i += 1;
    }
    *p.add(n) = U::zero();
    let mut i = 0;
    while i <= n {
        *q.add(i) = *p.add(i);
        i += 1;
    }
    S { p, q, n, c: cls.len(), off }
}
/// a new text in the memory of an old one
pub unsafe fn reuse<U: Unit>(o: &S<U>, cls: &[u64]) -> S<U> {
    let t: S<U> = of(cls);
    assume(t.n <= o.n);
    let mut i = 0;
    while i <= t.n {
        *o.p.add(i) = *t.p.add(i);
        i += 1;
    }
    S { p: o.p, ..t }
}
/// all texts of exactly c characters (classes: how many of the classes are used)
pub unsafe fn text_n<U: Unit>(c: usize, classes: u64) -> S<U> {
    let mut cls = [0u64; 8];
    let mut i = 0;
    while i < c {
        cls[i] = choose(classes);
        i += 1;
    }
    of(&cls[..c])
}
/// all texts of lo..=hi characters
pub unsafe fn text<U: Unit>(lo: usize, hi: usize, classes: u64) -> S<U> {
    let c = lo + choose((hi - lo + 1) as u64) as usize;
    text_n(c, classes)
}
/// n characters up to 0x7f, but for a two- and (STRING) three-unit character in front and any one-unit character at
/// the end
pub unsafe fn long<U: Unit>(n: usize) -> S<U> {
    let mut cls = [ASCII; MAXC];
    cls[1] = 1;
    cls[2] = 2;
    cls[n - 1] = 0;
    of(&cls[..n])
}
impl<U: Unit> S<U> {
    pub unsafe fn unchanged(&self) -> bool {
        let mut ok = true;
        let mut i = 0;
        while i <= self.n {
            ok &= *self.p.add(i) == *self.q.add(i);
            i += 1;
        }
        ok
    }
}
/// the expected result, put together from pieces of texts
pub struct Out<U> {
    pub e: *mut U,
    pub n: usize,
}
impl<U: Unit> Out<U> {
    pub fn new(cap: usize) -> Out<U> {
        Out { e: ubuf(cap), n: 0 }
    }
    /// append the characters a..b of s
    pub unsafe fn add(mut self, s: &S<U>, a: usize, b: usize) -> Out<U> {
        let mut i = s.off[a] as usize;
        while i < s.off[b] as usize {
            *self.e.add(self.n) = *s.q.add(i);
            self.n += 1;
            i += 1;
        }
        self
    }
    pub unsafe fn push(&mut self, x: U) {
        *self.e.add(self.n) = x;
        self.n += 1;
    }
    pub unsafe fn eq(&self, d: *const U) -> bool {
        let mut ok = true;
        let mut i = 0;
        while i < self.n {
            ok &= *d.add(i) == *self.e.add(i);
            i += 1;
        }
        ok & (*d.add(self.n) == U::zero())
    }
}
/// a destination of n units with arbitrary content
pub struct Dst<U> {
    pub p: *mut U,
    pub old: *mut U,
    pub n: usize,
}
impl<U: Unit> Dst<U> {
    pub unsafe fn new(n: usize) -> Dst<U> {
        let p: *mut U = ubuf(n);
        let old: *mut U = ubuf(n);
        let mut i = 0;
        while i < n {
            let x = U::any();
            *p.add(i) = x;
            *old.add(i) = x;
            i += 1;
        }
        Dst { p, old, n }
    }
    /// everything from unit k on is what it was
    pub unsafe fn same_from(&self, k: usize) -> bool {
        let mut ok = true;
        let mut i = k;
        while i < self.n {
            ok &= *self.p.add(i) == *self.old.add(i);
            i += 1;
        }
        ok
    }
    pub unsafe fn watch(&self) {
        sym_watch(self.p as *const u8, self.n * core::mem::size_of::<U>())
    }
}
macro_rules! decl {
    ($($t:ty: $len:ident $find:ident $left:ident $right:ident $mid:ident $insert:ident $delete:ident $replace:ident $concat:ident $concat_ext:ident,
       $gt:ident $ge:ident $eq:ident $le:ident $lt:ident $ne:ident;)*) => {
        extern "C" {
            $(
                fn $len(s: *const $t) -> i32;
                fn $find(a: *const $t, b: *const $t) -> i32;
                fn $left(s: *const $t, n: i32, d: *mut $t) -> i32;
                fn $right(s: *const $t, n: i32, d: *mut $t) -> i32;
                fn $mid(s: *const $t, n: i32, p: i32, d: *mut $t) -> i32;
                fn $insert(a: *const $t, b: *const $t, p: i32, d: *mut $t) -> i32;
                fn $delete(a: *const $t, n: i32, p: i32, d: *mut $t) -> i32;
                fn $replace(a: *const $t, b: *const $t, n: i32, p: i32, d: *mut $t) -> i32;
                fn $concat(d: *mut $t, n: i32, v: *const *const $t);
                fn $concat_ext(d: *mut $t, n: i32, v: *const *const $t) -> i32;
                fn $gt(n: i32, v: *const *const $t) -> bool;
                fn $ge(n: i32, v: *const *const $t) -> bool;
                fn $eq(n: i32, v: *const *const $t) -> bool;
                fn $le(n: i32, v: *const *const $t) -> bool;
                fn $lt(n: i32, v: *const *const $t) -> bool;
                fn $ne(a: *const $t, b: *const $t) -> bool;
            )*
        }
        $(
            impl Lib for $t {
                unsafe fn len(s: *const $t) -> i32 { $len(s) }
                unsafe fn find(a: *const $t, b: *const $t) -> i32 { $find(a, b) }
                unsafe fn left(s: *const $t, n: i32, d: *mut $t) { $left(s, n, d); }
                unsafe fn right(s: *const $t, n: i32, d: *mut $t) { $right(s, n, d); }
                unsafe fn mid(s: *const $t, n: i32, p: i32, d: *mut $t) { $mid(s, n, p, d); }
                unsafe fn insert(a: *const $t, b: *const $t, p: i32, d: *mut $t) { $insert(a, b, p, d); }
                unsafe fn delete(a: *const $t, n: i32, p: i32, d: *mut $t) { $delete(a, n, p, d); }
                unsafe fn replace(a: *const $t, b: *const $t, n: i32, p: i32, d: *mut $t) { $replace(a, b, n, p, d); }
                unsafe fn concat(ext: bool, d: *mut $t, n: i32, v: *const *const $t) { if ext { $concat_ext(d, n, v); } else { $concat(d, n, v) } }
                unsafe fn rel(k: u64, n: i32, v: *const *const $t) -> bool {
                    match k { 0 => $gt(n, v), 1 => $ge(n, v), 2 => $eq(n, v), 3 => $le(n, v), _ => $lt(n, v) }
                }
                unsafe fn ne(a: *const $t, b: *const $t) -> bool { $ne(a, b) }
            }
        )*
    };
}
pub trait Lib: Unit {
    unsafe fn len(s: *const Self) -> i32;
    unsafe fn find(a: *const Self, b: *const Self) -> i32;
    unsafe fn left(s: *const Self, n: i32, d: *mut Self);
    unsafe fn right(s: *const Self, n: i32, d: *mut Self);
    unsafe fn mid(s: *const Self, n: i32, p: i32, d: *mut Self);
    unsafe fn insert(a: *const Self, b: *const Self, p: i32, d: *mut Self);
    unsafe fn delete(a: *const Self, n: i32, p: i32, d: *mut Self);
    unsafe fn replace(a: *const Self, b: *const Self, n: i32, p: i32, d: *mut Self);
    unsafe fn concat(ext: bool, d: *mut Self, n: i32, v: *const *const Self);
    unsafe fn rel(k: u64, n: i32, v: *const *const Self) -> bool;
    unsafe fn ne(a: *const Self, b: *const Self) -> bool;
}
decl! {
    u8: LEN__STRING FIND__STRING LEFT_EXT__STRING RIGHT_EXT__STRING MID_EXT__STRING INSERT_EXT__STRING DELETE_EXT__STRING REPLACE_EXT__STRING CONCAT__STRING CONCAT_EXT__STRING,
        GT__STRING GE__STRING EQ__STRING LE__STRING LT__STRING NE__STRING;
    u16: LEN__WSTRING FIND__WSTRING LEFT_EXT__WSTRING RIGHT_EXT__WSTRING MID_EXT__WSTRING INSERT_EXT__WSTRING DELETE_EXT__WSTRING REPLACE_EXT__WSTRING CONCAT__WSTRING CONCAT_EXT__WSTRING,
        GT__WSTRING GE__WSTRING EQ__WSTRING LE__WSTRING LT__WSTRING NE__WSTRING;
}
/// a number of characters out of 0..=n
pub fn upto(n: usize) -> usize {
    choose(n as u64 + 1) as usize
}
/// pointers to the texts, nothing behind them
pub unsafe fn argv<U>(s: &[*const U]) -> *const *const U {
    let v = buf(s.len() * 8) as *mut *const U;
    let mut i = 0;
    while i < s.len() {
        *v.add(i) = s[i];
        i += 1;
    }
    v
}
pub const HUGE: usize = 66_000;
/// a text of n characters, one unit each but for a two-unit one at index 1; some of them arbitrary
pub struct Huge<U> {
    pub p: *mut U,
    /// characters
    pub n: usize,
}
impl<U: Unit> Huge<U> {
    /// unit offset of character i
    pub fn at(i: usize) -> usize {
        i + (i > 1) as usize
    }
    /// sym: further characters (not 1) that are arbitrary (up to 0x7f)
    pub unsafe fn new(n: usize, sym: &[usize]) -> Huge<U> {
        pat::use_contracts();
        let p: *mut U = ubuf(n + 2);
        core::ptr::write_bytes(p as *mut u8, 0x78, (n + 1) * core::mem::size_of::<U>());
        U::put(p.add(1), 1);
        let mut i = 0;
        while i < sym.len() {
            U::put(p.add(Self::at(sym[i])), ASCII);
            i += 1;
        }
        *p.add(n + 1) = U::zero();
        Huge { p, n }
    }
    /// units of the characters a..b
    pub fn units(a: usize, b: usize) -> usize {
        Self::at(b) - Self::at(a)
    }
    /// at *d lie the characters a..b of this text; *d is moved behind them
    pub unsafe fn next(&self, a: usize, b: usize, d: &mut *mut U) -> bool {
        let (mut i, e) = (Self::at(a), Self::at(b));
        let mut ok = true;
        while i < e {
            ok &= **d == *self.p.add(i);
            *d = d.add(1);
            i += 1;
        }
        ok
    }
}
