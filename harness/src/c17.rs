use super::st::{self, *};
use crate::api::*;
const FILE: u32 = 17;
/// does the character sequence b start at character i of a?
unsafe fn at<U: Unit>(a: &S<U>, b: &S<U>, i: usize) -> bool {
    let o = a.off[i] as usize;
    if o + b.n > a.n {
        return false;
    }
    let mut ok = true;
    let mut k = 0;
    while k < b.n {
        ok &= *a.q.add(o + k) == *b.q.add(k);
        k += 1;
    }
    ok
}
unsafe fn find<U: Lib>(a: S<U>, b: S<U>) {
    let r = U::find(a.p, b.p);
    // smallest position, from the back
    let mut want = 0;
    if b.c > 0 {
        let mut i = a.c;
        while i > 0 {
            i -= 1;
            if b.c <= a.c - i && at(&a, &b, i) {
                want = i as i32 + 1;
            }
        }
    }
    check!(r == want);
}
unsafe fn any<U: Lib>(hi: usize, hi2: usize, cl: u64) {
    let a: S<U> = text(0, hi, cl);
    let b: S<U> = text(0, hi2, cl);
    find(a, b)
}
/// one-unit texts only, longer
unsafe fn plain<U: Lib>(n: usize, m: usize) {
    let a: S<U> = of(&[0; 8][..n]);
    let b: S<U> = of(&[0; 8][..m]);
    find(a, b)
}
/// a text whose only match of the needle is at the given character, far away
unsafe fn far<U: Lib>() {
    let n = 300;
    let mut cls = [0u64; MAXC];
    cls[1] = 1;
    cls[2] = 2;
    let k = [0, 3, 79, 80, 126, 127, 128, 254, 255, 256, 299][choose(11) as usize];
    // one-unit characters below 'a', the needle from there on
    cls[0] = 0;
    let a: S<U> = of(&cls[..n]);
    let b: S<U> = of(&[0]);
    *b.p = U::of(ur(8, 0x61, 0x7f));
    let mut i = 0;
    while i < n {
        if cls[i] == 0 {
            *a.p.add(a.off[i] as usize) = if i == k { *b.p } else { U::of(ur(8, 1, 0x60)) };
        }
        i += 1;
    }
    check!(U::find(a.p, b.p) == k as i32 + 1);
}
/// the only match beyond 16 bits
unsafe fn huge<U: Lib>() {
    let k = 65_537;
    let a: Huge<U> = Huge::new(HUGE, &[k, k + 1]);
    let b: S<U> = of(&[0, 0]);
    assume(*a.p.add(Huge::<U>::at(k)) == *b.p && *b.p != U::of(0x78) && *b.p != U::of(0x7878));
    assume(*a.p.add(Huge::<U>::at(k + 1)) == *b.p.add(1));
    check!(U::find(a.p, b.p) == k as i32 + 1);
}
/// the same memory with other texts
unsafe fn again<U: Lib>() {
    let a: S<U> = of(&[0, choose(2), 0]);
    let b: S<U> = of(&[choose(2)]);
    find(a, b);
    let c = st::reuse(&a, &[0, 0, 0][..2 + choose(2) as usize]);
    let d = st::reuse(&b, &[0]);
    find(c, d);
}
macro_rules! h {
    ($($h:ident $e:expr;)*) => { $(#[no_mangle] pub unsafe extern "C" fn $h() { $e })* };
}
h! {
    h_c17_dq_again_s again::<u8>();
    h_c17_dq_again_w again::<u16>();
    h_c17_dq_any_s any::<u8>(3, 2, 4);
    h_c17_dq_any_w any::<u16>(3, 2, 3);
    h_c17_dq_all_s any::<u8>(2, 2, 9);
    h_c17_dq_plain_s plain::<u8>(6, 3);
    h_c17_dq_plain_w plain::<u16>(6, 3);
    h_c17_dq_plain5_s plain::<u8>(5, 5);
    h_c17_dq_plain5_w plain::<u16>(5, 5);
    h_c17_dq_far_s far::<u8>();
    h_c17_dq_far_w far::<u16>();
    h_c17_dq_huge_s huge::<u8>();
    h_c17_dq_huge_w huge::<u16>();
    h_c17_dt_any_s any::<u8>(4, 3, 4);
    h_c17_dt_any_w any::<u16>(5, 3, 3);
    h_c17_dt_all_s any::<u8>(3, 2, 9);
    h_c17_dt_plain_s plain::<u8>(8, 4);
    h_c17_dt_plain_w plain::<u16>(8, 4);
}
