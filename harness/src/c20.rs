use super::st::*;
use crate::api::*;
const FILE: u32 = 20;
extern "C" {
    fn STRING_TO_WSTRING_EXT(s: *const u8, d: *mut u16) -> i32;
    fn WSTRING_TO_STRING_EXT(s: *const u16, d: *mut u8) -> i32;
}
/// UTF-16 of a valid text, derived from its UTF-8 bytes
unsafe fn utf16(s: &S<u8>) -> Out<u16> {
    let mut o: Out<u16> = Out::new(2 * s.c + 1);
    let mut i = 0;
    while i < s.c {
        let p = s.q.add(s.off[i] as usize);
        let b = |k: usize| *p.add(k) as u32;
        match s.off[i + 1] - s.off[i] {
            1 => o.push(b(0) as u16),
            2 => o.push(((b(0) & 0x1f) << 6 | b(1) & 0x3f) as u16),
            3 => o.push(((b(0) & 0xf) << 12 | (b(1) & 0x3f) << 6 | b(2) & 0x3f) as u16),
            _ => {
                let c = ((b(0) & 7) << 18 | (b(1) & 0x3f) << 12 | (b(2) & 0x3f) << 6 | b(3) & 0x3f) - 0x10000;
                o.push((0xd800 | c >> 10) as u16);
                o.push((0xdc00 | c & 0x3ff) as u16);
            }
        }
        i += 1;
    }
    o
}
unsafe fn to_wide(s: S<u8>) {
    let o = utf16(&s);
    let d: Dst<u16> = Dst::new(o.n + 2);
    STRING_TO_WSTRING_EXT(s.p, d.p);
    check!(o.eq(d.p) && d.same_from(o.n + 1) && s.unchanged());
    // and back
    let e: Dst<u8> = Dst::new(s.n + 2);
    WSTRING_TO_STRING_EXT(d.p, e.p);
    let mut ok = *e.p.add(s.n) == 0;
    let mut i = 0;
    while i < s.n {
        ok &= *e.p.add(i) == *s.q.add(i);
        i += 1;
    }
    check!(ok && e.same_from(s.n + 1));
}
/// one unit of the given kind, and the UTF-8 it stands for unless it is half of a pair
unsafe fn unit(k: u64) -> u16 {
    let (lo, hi) = [(1, 0x7f), (0x80, 0x7ff), (0x800, 0xd7ff), (0xe000, 0xffff), (0xd800, 0xdbff), (0xdc00, 0xdfff)][k as usize];
    ur(16, lo, hi) as u16
}
/// arbitrary units: paired and unpaired surrogates anywhere
unsafe fn to_narrow(n: usize) {
    let w: *mut u16 = ubuf(n + 1);
    let old: *mut u16 = ubuf(n + 1);
    let mut kind = [0u64; 9];
    let mut i = 0;
    while i < n {
        kind[i] = choose(6);
        *w.add(i) = unit(kind[i]);
        *old.add(i) = *w.add(i);
        i += 1;
    }
    let mut o: Out<u8> = Out::new(3 * n + 2);
    let mut i = 0;
    while i < n {
        let u = *w.add(i) as u32;
        match kind[i] {
            0 => o.push(u as u8),
            1 => {
                o.push((0xc0 | u >> 6) as u8);
                o.push((0x80 | u & 0x3f) as u8);
            }
            2 | 3 => {
                o.push((0xe0 | u >> 12) as u8);
                o.push((0x80 | u >> 6 & 0x3f) as u8);
                o.push((0x80 | u & 0x3f) as u8);
            }
            4 if i + 1 < n && kind[i + 1] == 5 => {
                let c = 0x10000 + ((u & 0x3ff) << 10 | *w.add(i + 1) as u32 & 0x3ff);
                o.push((0xf0 | c >> 18) as u8);
                o.push((0x80 | c >> 12 & 0x3f) as u8);
                o.push((0x80 | c >> 6 & 0x3f) as u8);
                o.push((0x80 | c & 0x3f) as u8);
                i += 1;
            }
            _ => {
                o.push(0xef);
                o.push(0xbf);
                o.push(0xbd);
            }
        }
        i += 1;
    }
    let d: Dst<u8> = Dst::new(o.n + 2);
    WSTRING_TO_STRING_EXT(w, d.p);
    check!(o.eq(d.p) && d.same_from(o.n + 1));
    let mut same = *w.add(n) == 0;
    let mut i = 0;
    while i < n {
        same &= *w.add(i) == *old.add(i);
        i += 1;
    }
    check!(same);
}
/// long valid texts there and back
unsafe fn lng() {
    to_wide(long([79, 80, 81, 127, 255, 256, 300][choose(7) as usize]))
}
/// beyond 16 bits: one-byte characters and a symbolic two-byte one, there and back
unsafe fn huge(back: bool) {
    let s: Huge<u8> = Huge::new(HUGE, &[0, 65_536, HUGE - 1]);
    let w: *mut u16 = ubuf(HUGE + 1);
    let mut i = 0;
    while i < HUGE {
        *w.add(i) = *s.p.add(Huge::<u8>::at(i)) as u16;
        i += 1;
    }
    *w.add(1) = (*s.p.add(1) as u16 & 0x1f) << 6 | *s.p.add(2) as u16 & 0x3f;
    let n = if back { HUGE + 1 } else { HUGE };
    let mut i = 0;
    let mut ok = true;
    if back {
        let d: *mut u8 = ubuf(n + 1);
        WSTRING_TO_STRING_EXT(w, d);
        while i <= n {
            ok &= *d.add(i) == *s.p.add(i);
            i += 1;
        }
    } else {
        let d: *mut u16 = ubuf(n + 1);
        STRING_TO_WSTRING_EXT(s.p, d);
        while i <= n {
            ok &= *d.add(i) == *w.add(i);
            i += 1;
        }
    }
    check!(ok);
}
/// the same memory with another text
unsafe fn again() {
    let a: S<u8> = of(&[choose(4), choose(2)]);
    to_wide(a);
    let b = reuse(&a, &[choose(2), 0][..1 + choose(2) as usize]);
    to_wide(b);
    to_narrow(2);
}
macro_rules! h {
    ($($h:ident $e:expr;)*) => { $(#[no_mangle] pub unsafe extern "C" fn $h() { $e })* };
}
h! {
    h_c20_dq_again again();
    h_c20_dq_wide to_wide(text(0, 3, 4));
    h_c20_dq_wide_all to_wide(text(1, 2, 9));
    h_c20_dq_narrow to_narrow(upto(3));
    h_c20_dq_long lng();
    h_c20_dq_huge_wide huge(false);
    h_c20_dq_huge_narrow huge(true);
    h_c20_dt_wide to_wide(text(4, 5, 4));
    h_c20_dt_wide_all to_wide(text(3, 3, 9));
    h_c20_dt_narrow to_narrow(4 + upto(1));
}
