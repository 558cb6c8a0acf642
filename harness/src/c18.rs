use super::st::*;
use crate::api::*;
const FILE: u32 = 18;
/// n arbitrary units, not necessarily valid text (comparison works on units), and the terminator
unsafe fn units<U: Lib>(n: usize) -> (*mut U, usize) {
    let p: *mut U = ubuf(n + 1);
    let mut i = 0;
    while i < n {
        let x = U::any();
        assume(x != U::zero());
        *p.add(i) = x;
        i += 1;
    }
    *p.add(n) = U::zero();
    (p, n)
}
/// -1, 0, 1: lexicographic order of the units
unsafe fn order<U: Lib>(a: (*mut U, usize), b: (*mut U, usize)) -> i32 {
    let m = if a.1 < b.1 { a.1 } else { b.1 };
    let mut r = (a.1 > b.1) as i32 - (a.1 < b.1) as i32;
    let mut i = m;
    while i > 0 {
        i -= 1;
        let (x, y) = ((*a.0.add(i)).num(), (*b.0.add(i)).num());
        r = if x < y {
            -1
        } else if x > y {
            1
        } else {
            r
        };
    }
    r
}
fn holds(k: u64, o: i32) -> bool {
    match k {
        0 => o > 0,
        1 => o >= 0,
        2 => o == 0,
        3 => o <= 0,
        _ => o < 0,
    }
}
unsafe fn two<U: Lib>(hi: usize) {
    let (a, b) = (units::<U>(upto(hi)), units::<U>(upto(hi)));
    let o = order(a, b);
    let k = choose(6);
    if k == 5 {
        check!(<U as Lib>::ne(a.0, b.0) == (o != 0));
    } else {
        check!(U::rel(k, 2, argv(&[a.0, b.0])) == holds(k, o));
    }
}
/// the same memory with other texts
unsafe fn again<U: Lib>() {
    let (a, b) = (units::<U>(2), units::<U>(upto(2)));
    let k = choose(6);
    let mut i = 0;
    while i < 2 {
        let o = order(a, b);
        if k == 5 {
            check!(<U as Lib>::ne(a.0, b.0) == (o != 0));
        } else {
            check!(U::rel(k, 2, argv(&[a.0, b.0])) == holds(k, o));
        }
        let x = U::any();
        assume(x != U::zero());
        *a.0 = x;
        i += 1;
    }
}
/// chains of n operands of up to hi units
unsafe fn chain<U: Lib>(n: usize, hi: usize) {
    let mut v = [(core::ptr::null_mut::<U>(), 0); 8];
    let mut s = [core::ptr::null::<U>(); 8];
    let mut i = 0;
    while i < n {
        v[i] = units::<U>(upto(hi));
        s[i] = v[i].0;
        i += 1;
    }
    let k = choose(5);
    let mut want = true;
    let mut i = 1;
    while i < n {
        want &= holds(k, order(v[i - 1], v[i]));
        i += 1;
    }
    check!(U::rel(k, n as i32, argv(&s[..n])) == want);
}
unsafe fn few<U: Lib>() {
    let a = units::<U>(1);
    let n = sr(32, i32::MIN as i64, 1) as i32;
    let k = choose(5);
    must_panic!(U::rel(k, n, argv(&[a.0])));
}
/// difference at a late unit, long operands; also the same object twice
unsafe fn far<U: Lib>() {
    let n = 300;
    let p: *mut U = ubuf(n + 1);
    let q: *mut U = ubuf(n + 1);
    let mut i = 0;
    while i < n {
        let x = U::any();
        assume(x != U::zero());
        *p.add(i) = x;
        *q.add(i) = x;
        i += 1;
    }
    *p.add(n) = U::zero();
    *q.add(n) = U::zero();
    let d = [0, 7, 80, 127, 128, 255, 256, 299, 300][choose(9) as usize];
    let y = U::any();
    if d < n {
        assume(y != U::zero());
        *q.add(d) = y;
    }
    let o = if d < n {
        let (x, y) = ((*p.add(d)).num(), y.num());
        (x > y) as i32 - (x < y) as i32
    } else {
        0
    };
    let k = choose(6);
    if k == 5 {
        check!(<U as Lib>::ne(p, q) == (o != 0));
    } else {
        check!(U::rel(k, 2, argv(&[p, q])) == holds(k, o));
    }
}
/// long chains of one-unit operands that are all equal but for one
unsafe fn many<U: Lib>() {
    let n = [5, 8, 9, 16, 17, 33, 65, 100, 129, 257][choose(10) as usize];
    let x = units::<U>(1);
    let y = units::<U>(1);
    assume(*x.0 != U::zero() && *y.0 != U::zero());
    let d = [0, 1, 2, 3, 4, 7, 8, n / 2, n - 2, n - 1][choose(10) as usize];
    assume(d < n);
    let mut v = [x.0 as *const U; 260];
    v[d] = y.0;
    let k = choose(5);
    let o = order(x, y);
    let eq = holds(k, 0);
    let want = (n <= 2 || eq) && (d == 0 || holds(k, o)) && (d == n - 1 || holds(k, -o));
    // a pair of equal operands exists
    check!(U::rel(k, n as i32, argv(&v[..n])) == want);
}
/// operands whose only difference lies beyond 16 bits
unsafe fn huge<U: Lib>() {
    let a: Huge<U> = Huge::new(HUGE, &[]);
    let b: Huge<U> = Huge::new(HUGE, &[]);
    *b.p.add(1) = *a.p.add(1);
    *b.p.add(2) = *a.p.add(2);
    let at = Huge::<U>::at(65_537);
    let (x, y) = (U::any(), U::any());
    assume(x != U::zero() && y != U::zero());
    *a.p.add(at) = x;
    *b.p.add(at) = y;
    let (x, y) = (x.num(), y.num());
    let o = (x > y) as i32 - (x < y) as i32;
    let k = choose(6);
    if k == 5 {
        check!(<U as Lib>::ne(a.p, b.p) == (o != 0));
    } else {
        check!(U::rel(k, 2, argv(&[a.p as *const U, b.p])) == holds(k, o));
    }
}
macro_rules! h {
    ($($h:ident $e:expr;)*) => { $(#[no_mangle] pub unsafe extern "C" fn $h() { $e })* };
}
h! {
    h_c18_dq_again_s again::<u8>();
    h_c18_dq_again_w again::<u16>();
    h_c18_dq_two_s two::<u8>(3);
    h_c18_dq_two_w two::<u16>(3);
    h_c18_dq_three_s chain::<u8>(3, 1);
    h_c18_dq_three_w chain::<u16>(3, 1);
    h_c18_dq_four_s chain::<u8>(4, 1);
    h_c18_dq_four_w chain::<u16>(4, 1);
    h_c18_dq_far_s far::<u8>();
    h_c18_dq_far_w far::<u16>();
    h_c18_dq_few_s few::<u8>();
    h_c18_dq_few_w few::<u16>();
    h_c18_rq_few_s few::<u8>();
    h_c18_rq_few_w few::<u16>();
    h_c18_dq_many_s many::<u8>();
    h_c18_dq_many_w many::<u16>();
    h_c18_dq_huge_s huge::<u8>();
    h_c18_dq_huge_w huge::<u16>();
    h_c18_dt_two_s two::<u8>(6);
    h_c18_dt_two_w two::<u16>(6);
    h_c18_dt_three_s chain::<u8>(3, 2);
    h_c18_dt_three_w chain::<u16>(3, 2);
    h_c18_dt_six_s chain::<u8>(6, 1);
    h_c18_dt_six_w chain::<u16>(6, 1);
}
