use super::st::{self, *};
use crate::api::*;
const FILE: u32 = 16;
fn bad_i32() -> i32 {
    sr(32, i32::MIN as i64, i32::MAX as i64) as i32
}
/// a text of 0..=3 characters of mixed lengths, or a long one
unsafe fn base<U: Lib>(lo: usize) -> S<U> {
    let k = choose(5);
    if k == 4 {
        return st::long(300);
    }
    if k < lo as u64 {
        return st::long(10);
    }
    let mut cls = [0u64; 8];
    let mut i = 0;
    while i < k as usize {
        cls[i] = if choose(2) == 0 { 0 } else { U::SHORT - 1 - (i as u64 & 1) };
        i += 1;
    }
    of(&cls[..k as usize])
}
/// every length, count and position that has to be rejected
unsafe fn left_right<U: Lib>(right: bool) {
    let s: S<U> = base(0);
    let n = bad_i32();
    assume(n < 0 || n > s.c as i32);
    let d: Dst<U> = Dst::new(4);
    d.watch();
    must_panic!(if right { U::right(s.p, n, d.p) } else { U::left(s.p, n, d.p) });
}
/// 0: MID, 1: DELETE, 2: REPLACE
unsafe fn range<U: Lib>(k: u64) {
    let s: S<U> = base(0);
    let (n, p) = (bad_i32(), bad_i32());
    let c = s.c as i64;
    let ok = n >= 0 && p >= 1 && p as i64 <= c && p as i64 - 1 + n as i64 <= c;
    assume(!ok);
    let d: Dst<U> = Dst::new(4);
    d.watch();
    let r: S<U> = of(&[0, 1]);
    must_panic!(match k {
        0 => U::mid(s.p, n, p, d.p),
        1 => U::delete(s.p, n, p, d.p),
        _ => U::replace(s.p, r.p, n, p, d.p),
    });
}
unsafe fn ins<U: Lib>() {
    let s: S<U> = base(0);
    let p = bad_i32();
    assume(p < 0 || p > s.c as i32);
    let r: S<U> = of(&[1, 0]);
    let d: Dst<U> = Dst::new(4);
    d.watch();
    must_panic!(U::insert(s.p, r.p, p, d.p));
}
/// the other side of the boundary: admissible arguments are not rejected
unsafe fn fine<U: Lib>() {
    let s: S<U> = of(&[0, 1, 2]);
    let c = s.c as i32;
    let (n, p) = (bad_i32(), bad_i32());
    let d: Dst<U> = Dst::new(64);
    let r: S<U> = of(&[0, 1]);
    match choose(6) {
        0 => {
            assume(n >= 0 && n <= c);
            U::left(s.p, n, d.p)
        }
        1 => {
            assume(n >= 0 && n <= c);
            U::right(s.p, n, d.p)
        }
        2 => {
            assume(p >= 0 && p <= c);
            U::insert(s.p, r.p, p, d.p)
        }
        k => {
            assume(n >= 0 && p >= 1 && p <= c && n <= c - p + 1);
            match k {
                3 => U::mid(s.p, n, p, d.p),
                4 => U::delete(s.p, n, p, d.p),
                _ => U::replace(s.p, r.p, n, p, d.p),
            }
        }
    }
    cover!();
}
macro_rules! h {
    ($($h:ident $e:expr;)*) => { $(#[no_mangle] pub unsafe extern "C" fn $h() { $e })* };
}
h! {
    h_c16_dq_left_s left_right::<u8>(false);
    h_c16_dq_left_w left_right::<u16>(false);
    h_c16_dq_right_s left_right::<u8>(true);
    h_c16_dq_right_w left_right::<u16>(true);
    h_c16_dq_mid_s range::<u8>(0);
    h_c16_dq_mid_w range::<u16>(0);
    h_c16_dq_delete_s range::<u8>(1);
    h_c16_dq_delete_w range::<u16>(1);
    h_c16_dq_replace_s range::<u8>(2);
    h_c16_dq_replace_w range::<u16>(2);
    h_c16_dq_insert_s ins::<u8>();
    h_c16_dq_insert_w ins::<u16>();
    h_c16_dq_fine_s fine::<u8>();
    h_c16_dq_fine_w fine::<u16>();
    h_c16_rq_left_s left_right::<u8>(false);
    h_c16_rq_left_w left_right::<u16>(false);
    h_c16_rq_right_s left_right::<u8>(true);
    h_c16_rq_right_w left_right::<u16>(true);
    h_c16_rq_mid_s range::<u8>(0);
    h_c16_rq_mid_w range::<u16>(0);
    h_c16_rq_delete_s range::<u8>(1);
    h_c16_rq_delete_w range::<u16>(1);
    h_c16_rq_replace_s range::<u8>(2);
    h_c16_rq_replace_w range::<u16>(2);
    h_c16_rq_insert_s ins::<u8>();
    h_c16_rq_insert_w ins::<u16>();
}
