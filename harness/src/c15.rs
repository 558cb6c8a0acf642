use super::st::{self, *};
use crate::api::*;
const FILE: u32 = 15;
/// classes of the second text: 0 = one unit each; 1 = the longest ones; 2 = any
unsafe fn second<U: Lib>(hi: usize) -> S<U> {
    text(0, hi, U::SHORT)
}
unsafe fn insert<U: Lib>(a: S<U>, b: S<U>, p: usize) {
    let o = Out::new(a.n + b.n + 1).add(&a, 0, p).add(&b, 0, b.c).add(&a, p, a.c);
    let d: Dst<U> = Dst::new(o.n + 1);
    U::insert(a.p, b.p, p as i32, d.p);
    check!(o.eq(d.p));
}
unsafe fn delete<U: Lib>(a: S<U>, l: usize, p: usize) {
    let o = Out::new(a.n + 1).add(&a, 0, p).add(&a, p + l, a.c);
    let d: Dst<U> = Dst::new(o.n + 1);
    U::delete(a.p, l as i32, p as i32 + 1, d.p);
    check!(o.eq(d.p));
}
unsafe fn replace<U: Lib>(a: S<U>, b: S<U>, l: usize, p: usize) {
    let o = Out::new(a.n + b.n + 1).add(&a, 0, p).add(&b, 0, b.c).add(&a, p + l, a.c);
    let d: Dst<U> = Dst::new(o.n + 1);
    U::replace(a.p, b.p, l as i32, p as i32 + 1, d.p);
    check!(o.eq(d.p));
}
unsafe fn ins<U: Lib>(hi: usize, hi2: usize) {
    let a: S<U> = text(0, hi, U::SHORT);
    let p = upto(a.c);
    insert(a, second(hi2), p)
}
unsafe fn del<U: Lib>(hi: usize, cl: u64) {
    let a: S<U> = text(1, hi, cl);
    let p = choose(a.c as u64) as usize;
    let l = upto(a.c - p);
    delete(a, l, p)
}
unsafe fn rep<U: Lib>(hi: usize, hi2: usize) {
    let a: S<U> = text(1, hi, U::SHORT);
    let p = choose(a.c as u64) as usize;
    let l = upto(a.c - p);
    replace(a, second(hi2), l, p)
}
/// concatenation of n texts
unsafe fn cat<U: Lib>(ext: bool, n: usize, hi: usize) {
    let mut s = [core::ptr::null::<U>(); 6];
    let mut o = Out::new(6 * 4 * hi + 1);
    let mut i = 0;
    while i < n {
        let x: S<U> = text(0, hi, U::SHORT);
        s[i] = x.p;
        o = o.add(&x, 0, x.c);
        i += 1;
    }
    let v = argv(&s[..n]);
    let d: Dst<U> = Dst::new(o.n + 1);
    U::concat(ext, d.p, n as i32, v);
    check!(o.eq(d.p));
}
/// no argument, or a negative number of them: the empty text
unsafe fn cat0<U: Lib>() {
    let v = argv::<U>(&[core::ptr::null()]);
    let d: Dst<U> = Dst::new(2);
    U::concat(boolv(), d.p, sr(32, i32::MIN as i64, 0) as i32, v);
    check!(*d.p == U::zero() && d.same_from(1));
}
/// many arguments of one character each
unsafe fn many<U: Lib>() {
    let n = [16, 17, 32, 100][choose(4) as usize];
    let mut s = [core::ptr::null::<U>(); 128];
    let mut o = Out::new(4 * 128);
    let mut i = 0;
    while i < n {
        let x: S<U> = of(&[[st::ASCII, 1, 2][i % 3]]);
        s[i] = x.p;
        o = o.add(&x, 0, 1);
        i += 1;
    }
    let v = argv(&s[..n]);
    let d: Dst<U> = Dst::new(o.n + 1);
    U::concat(true, d.p, n as i32, v);
    check!(o.eq(d.p));
}
unsafe fn lng<U: Lib>() {
    let a: S<U> = st::long([90, 300][choose(2) as usize]);
    let p = [0, 1, 2, 3, 79, 80, 81, 89, 127, 128, 255, 256, 257, 299][choose(14) as usize];
    assume(p < a.c);
    match choose(4) {
        0 => insert(a, st::long(20), p),
        1 => insert(st::long(20), a, 10),
        2 => {
            let l = if boolv() { a.c - p } else { 1 };
            delete(a, l, p)
        }
        _ => {
            let l = if boolv() { a.c - p } else { 1 };
            replace(a, st::long(100), l, p)
        }
    }
}
/// lengths and positions beyond 16 bits
unsafe fn huge<U: Lib>(k: u64) {
    let n = if k == 4 { 40_000 } else { HUGE };
    let a: Huge<U> = Huge::new(n, &[0, 32_768, n - 1]);
    let b: Huge<U> = Huge::new(if k == 4 { n } else { 4 }, &[2]);
    let d: *mut U = ubuf(Huge::<U>::at(a.n) + Huge::<U>::at(b.n) + 1);
    let mut e = d;
    let ok = match k {
        0 => {
            let p = 65_537;
            U::insert(a.p, b.p, p as i32, d);
            a.next(0, p, &mut e) && b.next(0, b.n, &mut e) && a.next(p, a.n, &mut e)
        }
        1 => {
            U::insert(b.p, a.p, 1, d);
            b.next(0, 1, &mut e) && a.next(0, a.n, &mut e) && b.next(1, b.n, &mut e)
        }
        2 => {
            let (l, p) = [(65_537, 3), (2, 65_536)][choose(2) as usize];
            U::delete(a.p, l as i32, p as i32, d);
            a.next(0, p - 1, &mut e) && a.next(p - 1 + l, a.n, &mut e)
        }
        3 => {
            let (l, p) = [(65_537, 3), (2, 65_536)][choose(2) as usize];
            U::replace(a.p, b.p, l as i32, p as i32, d);
            a.next(0, p - 1, &mut e) && b.next(0, b.n, &mut e) && a.next(p - 1 + l, a.n, &mut e)
        }
        _ => {
            U::concat(boolv(), d, 2, argv(&[a.p as *const U, b.p]));
            a.next(0, a.n, &mut e) && b.next(0, b.n, &mut e)
        }
    };
    check!(ok);
    check!(*e == U::zero());
}
/// the same memory with other texts
unsafe fn again<U: Lib>() {
    let (a, b): (S<U>, S<U>) = (of(&[0, 1, 0]), of(&[1]));
    let k = choose(4);
    let (mut x, mut y) = (a, b);
    let mut i = 0;
    while i < 2 {
        match k {
            0 => insert(x, y, 1),
            1 => delete(x, 1, x.c - 2),
            2 => replace(x, y, 1, x.c - 2),
            _ => {
                let o = Out::new(a.n + b.n + 1).add(&x, 0, x.c).add(&y, 0, y.c);
                let d: Dst<U> = Dst::new(o.n + 1);
                U::concat(true, d.p, 2, argv(&[x.p as *const U, y.p]));
                check!(o.eq(d.p));
            }
        }
        x = st::reuse(&a, &[choose(2), 0, 0][..2 + choose(2) as usize]);
        y = st::reuse(&b, &[0]);
        i += 1;
    }
}
macro_rules! h {
    ($($h:ident $e:expr;)*) => { $(#[no_mangle] pub unsafe extern "C" fn $h() { $e })* };
}
h! {
    h_c15_dq_again_s again::<u8>();
    h_c15_dq_again_w again::<u16>();
    h_c15_dq_insert_s ins::<u8>(3, 2);
    h_c15_dq_insert_w ins::<u16>(3, 2);
    h_c15_dq_delete_s del::<u8>(4, 4);
    h_c15_dq_delete_w del::<u16>(4, 3);
    h_c15_dq_replace_s rep::<u8>(3, 1);
    h_c15_dq_replace_w rep::<u16>(3, 2);
    h_c15_dq_concat0_s cat0::<u8>();
    h_c15_dq_concat0_w cat0::<u16>();
    h_c15_dq_concat1_s cat::<u8>(boolv(), 1, 2);
    h_c15_dq_concat2_s cat::<u8>(true, 2, 2);
    h_c15_dq_concat3_s cat::<u8>(false, 3, 1);
    h_c15_dq_concat4_s cat::<u8>(true, 4, 1);
    h_c15_dq_concat1_w cat::<u16>(boolv(), 1, 2);
    h_c15_dq_concat2_w cat::<u16>(true, 2, 2);
    h_c15_dq_concat3_w cat::<u16>(false, 3, 1);
    h_c15_dq_concat4_w cat::<u16>(true, 4, 1);
    h_c15_dq_many_s many::<u8>();
    h_c15_dq_many_w many::<u16>();
    h_c15_dq_long_s lng::<u8>();
    h_c15_dq_long_w lng::<u16>();
    h_c15_dq_huge_insert_s huge::<u8>(0);
    h_c15_dq_huge_insert_w huge::<u16>(0);
    h_c15_dq_huge_insert2_s huge::<u8>(1);
    h_c15_dq_huge_insert2_w huge::<u16>(1);
    h_c15_dq_huge_delete_s huge::<u8>(2);
    h_c15_dq_huge_delete_w huge::<u16>(2);
    h_c15_dq_huge_replace_s huge::<u8>(3);
    h_c15_dq_huge_replace_w huge::<u16>(3);
    h_c15_dq_huge_concat_s huge::<u8>(4);
    h_c15_dq_huge_concat_w huge::<u16>(4);
    h_c15_dt_insert_s ins::<u8>(4, 2);
    h_c15_dt_insert_w ins::<u16>(5, 3);
    h_c15_dt_delete_s del::<u8>(3, 9);
    h_c15_dt_delete5_s del::<u8>(5, 4);
    h_c15_dt_delete_w del::<u16>(7, 3);
    h_c15_dt_replace_s rep::<u8>(4, 2);
    h_c15_dt_replace_w rep::<u16>(5, 3);
    h_c15_dt_concat5_s cat::<u8>(true, 5, 1);
    h_c15_dt_concat5_w cat::<u16>(true, 5, 1);
    h_c15_dt_concat3_s cat::<u8>(true, 3, 2);
    h_c15_dt_concat3_w cat::<u16>(true, 3, 2);
}
