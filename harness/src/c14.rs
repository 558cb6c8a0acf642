use super::st::{self, *};
use crate::api::*;
const FILE: u32 = 14;
unsafe fn len<U: Lib>(hi: usize) {
    let s: S<U> = text(0, hi, U::CLASSES);
    check!(U::len(s.p) == s.c as i32);
}
/// every length of a text
unsafe fn cut<U: Lib>(k: u64, s: S<U>, n: usize, p: usize) {
    // p: zero-based first character of MID
    let (a, b) = match k {
        0 => (0, n),
        1 => (s.c - n, s.c),
        _ => (p, p + n),
    };
    let o = Out::new(s.n + 1).add(&s, a, b);
    let d: Dst<U> = Dst::new(o.n + 1);
    match k {
        0 => U::left(s.p, n as i32, d.p),
        1 => U::right(s.p, n as i32, d.p),
        _ => U::mid(s.p, n as i32, p as i32 + 1, d.p),
    }
    check!(o.eq(d.p));
}
unsafe fn left<U: Lib>(hi: usize, cl: u64) {
    let s: S<U> = text(0, hi, cl);
    let n = upto(s.c);
    cut(0, s, n, 0)
}
unsafe fn right<U: Lib>(hi: usize, cl: u64) {
    let s: S<U> = text(0, hi, cl);
    let n = upto(s.c);
    cut(1, s, n, 0)
}
unsafe fn mid<U: Lib>(hi: usize, cl: u64) {
    let s: S<U> = text(1, hi, cl);
    let p = choose(s.c as u64) as usize;
    let n = upto(s.c - p);
    cut(2, s, n, p)
}
/// long texts: selected lengths and positions
unsafe fn lng<U: Lib>() {
    let s: S<U> = st::long([90, 300][choose(2) as usize]);
    let n = [0, 1, 2, 3, 79, 80, 81, 89, 127, 128, 255, 256, 257][choose(13) as usize];
    assume(n <= s.c);
    let k = choose(4);
    match k {
        0 | 1 => cut(k, s, n, 0),
        2 => cut(2, s, n, 0),
        _ => {
            let p = s.c - n;
            if p < s.c {
                cut(2, s, n, p)
            }
        }
    }
}
unsafe fn lnglen<U: Lib>() {
    let s: S<U> = st::long([80, 81, 127, 128, 255, 256, 257, 300][choose(8) as usize]);
    check!(U::len(s.p) == s.c as i32);
}
/// lengths and positions beyond 16 bits
unsafe fn hugelen<U: Lib>() {
    let s: Huge<U> = Huge::new(HUGE, &[0, 32_768, 65_535, 65_536, HUGE - 1]);
    check!(U::len(s.p) == s.n as i32);
}
unsafe fn huge<U: Lib>(k: u64) {
    let s: Huge<U> = Huge::new(HUGE, &[0, 32_768, 65_535, 65_536, HUGE - 1]);
    let (n, p) = match k {
        0 => (65_537, 0),
        1 => ([1, 65_537][choose(2) as usize], 0),
        2 => [(2, 65_535), (65_537, 2)][choose(2) as usize],
        _ => (0, 0),
    };
    let (a, b) = match k {
        0 => (0, n),
        1 => (s.n - n, s.n),
        _ => (p, p + n),
    };
    let d: *mut U = ubuf(Huge::<U>::units(a, b) + 1);
    match k {
        0 => U::left(s.p, n as i32, d),
        1 => U::right(s.p, n as i32, d),
        _ => U::mid(s.p, n as i32, p as i32 + 1, d),
    }
    let mut d = d;
    check!(s.next(a, b, &mut d));
    check!(*d == U::zero());
}
/// the same memory with another text
unsafe fn again<U: Lib>() {
    let a: S<U> = text_n(3, 2);
    let k = choose(4);
    let mut s = a;
    let mut i = 0;
    while i < 2 {
        if k == 3 {
            check!(U::len(s.p) == s.c as i32);
        } else {
            cut(k, s, 2, if k == 2 { s.c - 2 } else { 0 });
        }
        let cls = [choose(2), choose(2), 0];
        s = st::reuse(&a, &cls[..2 + choose(2) as usize]);
        i += 1;
    }
}
macro_rules! h {
    ($($h:ident $e:expr;)*) => { $(#[no_mangle] pub unsafe extern "C" fn $h() { $e })* };
}
h! {
    h_c14_dq_again_s again::<u8>();
    h_c14_dq_again_w again::<u16>();
    h_c14_dq_len_s len::<u8>(3);
    h_c14_dq_len_w len::<u16>(4);
    h_c14_dq_left_s left::<u8>(3, 4);
    h_c14_dq_left_w left::<u16>(4, 3);
    h_c14_dq_right_s right::<u8>(3, 4);
    h_c14_dq_right_w right::<u16>(4, 3);
    h_c14_dq_mid_s mid::<u8>(3, 4);
    h_c14_dq_mid_w mid::<u16>(4, 3);
    h_c14_dq_long_s lng::<u8>();
    h_c14_dq_long_w lng::<u16>();
    h_c14_dq_longlen_s lnglen::<u8>();
    h_c14_dq_longlen_w lnglen::<u16>();
    h_c14_dq_huge_left_s huge::<u8>(0);
    h_c14_dq_huge_left_w huge::<u16>(0);
    h_c14_dq_huge_right_s huge::<u8>(1);
    h_c14_dq_huge_right_w huge::<u16>(1);
    h_c14_dq_huge_mid_s huge::<u8>(2);
    h_c14_dq_huge_mid_w huge::<u16>(2);
    h_c14_dq_hugelen_s hugelen::<u8>();
    h_c14_dq_hugelen_w hugelen::<u16>();
    h_c14_dt_len_s len::<u8>(4);
    h_c14_dt_len_w len::<u16>(6);
    h_c14_dt_left_s left::<u8>(3, 9);
    h_c14_dt_right_s right::<u8>(3, 9);
    h_c14_dt_mid_s mid::<u8>(3, 9);
    h_c14_dt_left4_s left::<u8>(5, 4);
    h_c14_dt_right4_s right::<u8>(5, 4);
    h_c14_dt_mid4_s mid::<u8>(5, 4);
    h_c14_dt_left_w left::<u16>(6, 3);
    h_c14_dt_right_w right::<u16>(6, 3);
    h_c14_dt_mid_w mid::<u16>(6, 3);
}
