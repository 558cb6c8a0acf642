use super::st::*;
use crate::api::*;
const FILE: u32 = 19;
extern "C" {
    fn STRING_TO_WSTRING_EXT(s: *const u8, d: *mut u16) -> i32;
    fn WSTRING_TO_STRING_EXT(s: *const u16, d: *mut u8) -> i32;
}
const SLACK: usize = 5;
/// the destination lies in the middle of memory with arbitrary content: nothing but the n units of the result
/// and the terminator behind them may differ afterwards
struct Room<U> {
    all: Dst<U>,
    d: *mut U,
    n: usize,
}
impl<U: Unit> Room<U> {
    unsafe fn new(n: usize) -> Room<U> {
        let all: Dst<U> = Dst::new(2 * SLACK + n + 1);
        let d = all.p.add(SLACK);
        Room { all, d, n }
    }
    unsafe fn kept(&self) -> bool {
        let mut ok = true;
        let mut i = 0;
        while i < SLACK {
            ok &= *self.all.p.add(i) == *self.all.old.add(i);
            i += 1;
        }
        ok & (*self.d.add(self.n) == U::zero()) & self.all.same_from(SLACK + self.n + 1)
    }
}
/// k: 0 LEFT, 1 RIGHT, 2 MID, 3 DELETE
unsafe fn one<U: Lib>(k: u64, hi: usize) {
    let s: S<U> = text(1, hi, U::SHORT);
    let p = choose(s.c as u64) as usize;
    let l = upto(s.c - p);
    let part = (s.off[p + l] - s.off[p]) as usize;
    let n = match k {
        0 => s.off[l] as usize,
        1 => s.n - s.off[s.c - l] as usize,
        2 => part,
        _ => s.n - part,
    };
    let r: Room<U> = Room::new(n);
    match k {
        0 => U::left(s.p, l as i32, r.d),
        1 => U::right(s.p, l as i32, r.d),
        2 => U::mid(s.p, l as i32, p as i32 + 1, r.d),
        _ => U::delete(s.p, l as i32, p as i32 + 1, r.d),
    }
    check!(r.kept());
    check!(s.unchanged());
}
unsafe fn two<U: Lib>(insert: bool, hi: usize) {
    let s: S<U> = text(1, hi, U::SHORT);
    let t: S<U> = text(0, 1, U::SHORT);
    let p = choose(s.c as u64) as usize;
    let r: Room<U>;
    if insert {
        r = Room::new(s.n + t.n);
        U::insert(s.p, t.p, p as i32, r.d);
    } else {
        let l = upto(s.c - p);
        r = Room::new(s.n + t.n - (s.off[p + l] - s.off[p]) as usize);
        U::replace(s.p, t.p, l as i32, p as i32 + 1, r.d);
    }
    check!(r.kept());
    check!(s.unchanged() && t.unchanged());
}
unsafe fn cat<U: Lib>(n: usize) {
    let (a, b, c): (S<U>, S<U>, S<U>) = (text(0, 1, U::SHORT), text(0, 1, U::SHORT), text(0, 1, U::SHORT));
    let s = [a.p as *const U, b.p as *const U, c.p as *const U];
    let v = argv(&s[..n]);
    let r: Room<U> = Room::new(a.n + if n > 1 { b.n } else { 0 } + if n > 2 { c.n } else { 0 });
    U::concat(boolv(), r.d, n as i32, v);
    check!(r.kept());
    let mut i = 0;
    let mut ok = true;
    while i < n {
        ok &= *v.add(i) == s[i];
        i += 1;
    }
    check!(ok && a.unchanged() && b.unchanged() && c.unchanged());
}
/// LEN, FIND and the comparisons only read; the texts end at the end of their memory
unsafe fn read<U: Lib>(hi: usize) {
    let (a, b): (S<U>, S<U>) = (text(0, hi, U::SHORT), text(0, hi, U::SHORT));
    match choose(3) {
        0 => {
            U::len(a.p);
        }
        1 => {
            U::find(a.p, b.p);
        }
        _ => {
            U::rel(choose(5), 2, argv(&[a.p, b.p]));
            <U as Lib>::ne(a.p, b.p);
        }
    }
    check!(a.unchanged() && b.unchanged());
}
unsafe fn wide(hi: usize) {
    let s: S<u8> = text(0, hi, 4);
    let mut n = 0;
    let mut i = 0;
    while i < s.c {
        n += 1 + (s.off[i + 1] - s.off[i] == 4) as usize;
        i += 1;
    }
    let r: Room<u16> = Room::new(n);
    STRING_TO_WSTRING_EXT(s.p, r.d);
    check!(r.kept() && s.unchanged());
}
unsafe fn narrow(hi: usize) {
    // the length of the result depends on the content: one case per encoded length
    let c = upto(hi);
    let w: *mut u16 = ubuf(2 * c + 1);
    let q: *mut u16 = ubuf(2 * c + 1);
    let (mut n, mut m) = (0, 0);
    let mut i = 0;
    while i < c {
        match choose(4) {
            0 => {
                *w.add(n) = ur(16, 1, 0x7f) as u16;
                m += 1;
            }
            1 => {
                *w.add(n) = ur(16, 0x80, 0x7ff) as u16;
                m += 2;
            }
            2 => {
                *w.add(n) = ur(16, 0x800, 0xdfff) as u16;
                // a lone surrogate takes three bytes as well, a pair does not occur
                assume(i == 0 || *w.add(n) < 0xdc00);
                m += 3;
            }
            _ => {
                *w.add(n) = ur(16, 0xd800, 0xdbff) as u16;
                *w.add(n + 1) = ur(16, 0xdc00, 0xdfff) as u16;
                n += 1;
                m += 4;
            }
        }
        n += 1;
        i += 1;
    }
    // exactly as many units as are used, and the terminator
    let t: *mut u16 = ubuf(n + 1);
    let mut i = 0;
    while i < n {
        *t.add(i) = *w.add(i);
        *q.add(i) = *w.add(i);
        i += 1;
    }
    *t.add(n) = 0;
    let r: Room<u8> = Room::new(m);
    WSTRING_TO_STRING_EXT(t, r.d);
    let mut ok = *t.add(n) == 0;
    let mut i = 0;
    while i < n {
        ok &= *t.add(i) == *q.add(i);
        i += 1;
    }
    check!(r.kept() && ok);
}
/// long texts
unsafe fn lng<U: Lib>() {
    let s: S<U> = long([90, 300][choose(2) as usize]);
    let p = [0, 3, 79, 80, 81, 89][choose(6) as usize];
    match choose(5) {
        0 => {
            let r: Room<U> = Room::new(s.off[p] as usize);
            U::left(s.p, p as i32, r.d);
            check!(r.kept());
        }
        1 => {
            let r: Room<U> = Room::new(s.n - s.off[s.c - p] as usize);
            U::right(s.p, p as i32, r.d);
            check!(r.kept());
        }
        2 => {
            let r: Room<U> = Room::new(s.n - s.off[p] as usize);
            U::mid(s.p, (s.c - p) as i32, p as i32 + 1, r.d);
            check!(r.kept());
        }
        3 => {
            let r: Room<U> = Room::new(2 * s.n);
            U::insert(s.p, s.p, p as i32, r.d);
            check!(r.kept());
        }
        _ => {
            let r: Room<U> = Room::new(2 * s.n);
            U::concat(boolv(), r.d, 2, argv(&[s.p, s.p]));
            check!(r.kept());
        }
    }
    check!(s.unchanged());
}
macro_rules! h {
    ($($h:ident $e:expr;)*) => { $(#[no_mangle] pub unsafe extern "C" fn $h() { $e })* };
}
h! {
    h_c19_dq_left_s one::<u8>(0, 2);
    h_c19_dq_right_s one::<u8>(1, 2);
    h_c19_dq_mid_s one::<u8>(2, 2);
    h_c19_dq_delete_s one::<u8>(3, 2);
    h_c19_dq_left_w one::<u16>(0, 2);
    h_c19_dq_right_w one::<u16>(1, 2);
    h_c19_dq_mid_w one::<u16>(2, 2);
    h_c19_dq_delete_w one::<u16>(3, 2);
    h_c19_dq_insert_s two::<u8>(true, 2);
    h_c19_dq_replace_s two::<u8>(false, 2);
    h_c19_dq_insert_w two::<u16>(true, 2);
    h_c19_dq_replace_w two::<u16>(false, 2);
    h_c19_dq_concat1_s cat::<u8>(1);
    h_c19_dq_concat2_s cat::<u8>(2);
    h_c19_dq_concat3_w cat::<u16>(3);
    h_c19_dq_read_s read::<u8>(2);
    h_c19_dq_read_w read::<u16>(2);
    h_c19_dq_wide wide(2);
    h_c19_dq_narrow narrow(2);
    h_c19_dq_long_s lng::<u8>();
    h_c19_dq_long_w lng::<u16>();
    h_c19_dt_left_s one::<u8>(0, 4);
    h_c19_dt_right_s one::<u8>(1, 4);
    h_c19_dt_mid_s one::<u8>(2, 4);
    h_c19_dt_delete_s one::<u8>(3, 4);
    h_c19_dt_insert_s two::<u8>(true, 4);
    h_c19_dt_replace_s two::<u8>(false, 4);
    h_c19_dt_insert_w two::<u16>(true, 4);
    h_c19_dt_replace_w two::<u16>(false, 4);
    h_c19_dt_concat3_s cat::<u8>(3);
    h_c19_dt_wide wide(4);
    h_c19_dt_narrow narrow(4);
}
