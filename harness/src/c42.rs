//! Function blocks through their instance data as ST declares it (module stl, generated by stgen.py): an instance in
//! an array of two, the neighbour must not change.
use super::clk;
use super::stl::{self, ext};
use crate::api::*;
const FILE: u32 = 42;
/// an instance of a program, zeroed but for what the harness sets, and its neighbour, which is arbitrary
struct Two<T: Copy> {
    p: *mut T,
    q: *mut u8,
    old: *mut u8,
}
impl<T: Copy> Two<T> {
    unsafe fn new() -> Two<T> {
        let n = core::mem::size_of::<T>();
        let b = buf(2 * n);
        let old = buf(n);
        let mut i = 0;
        while i < n {
            *b.add(i) = 0;
            let x = u8v();
            *b.add(n + i) = x;
            *old.add(i) = x;
            i += 1;
        }
        Two { p: b as *mut T, q: b.add(n), old }
    }
    unsafe fn same(&self) -> bool {
        let mut ok = true;
        let mut i = 0;
        while i < core::mem::size_of::<T>() {
            ok &= *self.q.add(i) == *self.old.add(i);
            i += 1;
        }
        ok
    }
}
fn b8() -> u8 {
    boolv() as u8
}
unsafe fn bistable() {
    if choose(2) == 0 {
        let t = Two::<stl::SR>::new();
        let (s, r, o) = (b8(), b8(), b8());
        (*t.p).v_SET1 = s;
        (*t.p).v_RESET = r;
        (*t.p).v_Q1 = o;
        ext::SR(t.p);
        check!(((*t.p).v_Q1 == (s | (o & (r ^ 1)))) & ((*t.p).v_SET1 == s) & ((*t.p).v_RESET == r) & t.same());
    } else {
        let t = Two::<stl::RS>::new();
        let (s, r, o) = (b8(), b8(), b8());
        (*t.p).v_SET = s;
        (*t.p).v_RESET1 = r;
        (*t.p).v_Q1 = o;
        ext::RS(t.p);
        check!(((*t.p).v_Q1 == ((s | o) & (r ^ 1))) & ((*t.p).v_SET == s) & ((*t.p).v_RESET1 == r) & t.same());
    }
}
unsafe fn edges() {
    let (a, b, c) = (b8(), b8(), b8());
    if choose(2) == 0 {
        let t = Two::<stl::R_TRIG>::new();
        let mut last = 0;
        let mut ok = true;
        for x in [a, b, c] {
            (*t.p).v_CLK = x;
            ext::R_TRIG(t.p);
            ok &= (*t.p).v_Q == x & (last ^ 1);
            last = x;
        }
        check!(ok & ((*t.p).v_CLK == c) & t.same());
    } else {
        let t = Two::<stl::F_TRIG>::new();
        let mut last = 0;
        let mut ok = true;
        for x in [a, b, c] {
            (*t.p).v_CLK = x;
            ext::F_TRIG(t.p);
            ok &= (*t.p).v_Q == (x ^ 1) & last;
            last = x;
        }
        check!(ok & ((*t.p).v_CLK == c) & t.same());
    }
}
macro_rules! ctu {
    ($f:ident $t:ty) => {{
        let v = u64v() as $t;
        let (m, cv, pv) = (b8() != 0, v, u64v() as $t);
        let t = Two::<stl::$f>::new();
        let p = &mut *t.p;
        p.v_CV = cv as _;
        // the input of the first call is what the second one compares with
        p.v_CU = m as u8;
        p.v_PV = pv as _;
        ext::$f(p);
        let one = if m && cv < <$t>::MAX { cv + 1 } else { cv };
        check!((p.v_CV as i128 == one as i128) & (p.v_Q == (one >= pv) as u8));
        let (cu, r) = (b8(), b8());
        p.v_CU = cu;
        p.v_R = r;
        ext::$f(p);
        let want = if r != 0 { 0 } else if cu != 0 && !m && one < <$t>::MAX { one + 1 } else { one };
        check!((p.v_CV as i128 == want as i128) & (p.v_Q == (want >= pv) as u8) & (p.v_PV as i128 == pv as i128) & (p.v_CU == cu) & (p.v_R == r) & t.same());
    }};
}
macro_rules! ctd {
    ($f:ident $t:ty) => {{
        let v = u64v() as $t;
        let (m, cv, pv) = (b8() != 0, v, u64v() as $t);
        let t = Two::<stl::$f>::new();
        let p = &mut *t.p;
        p.v_CV = cv as _;
        p.v_CD = m as u8;
        p.v_PV = pv as _;
        ext::$f(p);
        let one = if m && cv > <$t>::MIN { cv - 1 } else { cv };
        check!((p.v_CV as i128 == one as i128) & (p.v_Q == (one <= 0) as u8));
        let (cd, ld) = (b8(), b8());
        p.v_CD = cd;
        p.v_LD = ld;
        ext::$f(p);
        let want = if ld != 0 { pv } else if cd != 0 && !m && one > <$t>::MIN { one - 1 } else { one };
        check!((p.v_CV as i128 == want as i128) & (p.v_Q == (want <= 0) as u8) & (p.v_PV as i128 == pv as i128) & (p.v_CD == cd) & (p.v_LD == ld) & t.same());
    }};
}
macro_rules! ctud {
    ($f:ident $t:ty) => {{
        let v = u64v() as $t;
        let (m, n, cv, pv) = (b8() != 0, b8() != 0, v, u64v() as $t);
        let t = Two::<stl::$f>::new();
        let p = &mut *t.p;
        p.v_CV = cv as _;
        p.v_CU = m as u8;
        p.v_CD = n as u8;
        p.v_PV = pv as _;
        ext::$f(p);
        let one = if m && !n && cv < <$t>::MAX { cv + 1 } else if n && !m && cv > <$t>::MIN { cv - 1 } else { cv };
        check!((p.v_CV as i128 == one as i128) & (p.v_QU == (one >= pv) as u8) & (p.v_QD == (one <= 0) as u8));
        let (cu, cd, r, ld) = (b8(), b8(), b8(), b8());
        p.v_CU = cu;
        p.v_CD = cd;
        p.v_R = r;
        p.v_LD = ld;
        ext::$f(p);
        let (up, down) = (cu != 0 && !m, cd != 0 && !n);
        let want = if r != 0 {
            0
        } else if ld != 0 {
            pv
        } else if up && !down && one < <$t>::MAX {
            one + 1
        } else if down && !up && one > <$t>::MIN {
            one - 1
        } else {
            one
        };
        check!((p.v_CV as i128 == want as i128) & (p.v_QU == (want >= pv) as u8) & (p.v_QD == (want <= 0) as u8));
        check!((p.v_PV as i128 == pv as i128) & (p.v_CU == cu) & (p.v_CD == cd) & (p.v_R == r) & (p.v_LD == ld) & t.same());
    }};
}
/// IN rises, and is TRUE (TP, TON) or FALSE (TOF) in a second call
macro_rules! timer {
    ($f:ident $kind:expr) => {{
        clk::start(1 << 20, false);
        let t = Two::<stl::$f>::new();
        let p = &mut *t.p;
        let pt = sr(64, 1, 1 << 20) * clk::G;
        clk::pass();
        p.v_IN = 1;
        p.v_PT = pt;
        ext::$f(p);
        let a = clk::now();
        check!((p.v_Q == ($kind != 1) as u8) & (p.v_ET == 0));
        clk::pass();
        let d = clk::now() - a;
        p.v_IN = ($kind != 2) as u8;
        ext::$f(p);
        if $kind == 2 {
            check!((p.v_Q == 1) & (p.v_ET == 0));
        } else {
            let et = if d < pt { d } else { pt };
            check!((p.v_Q == ($kind == 1) as u8 ^ (d <= pt) as u8) & (p.v_ET == et));
        }
        check!((p.v_PT == pt) & (p.v_IN == ($kind != 2) as u8) & t.same());
    }};
}
macro_rules! h {
    ($($h:ident $e:expr;)*) => { $(#[no_mangle] pub unsafe extern "C" fn $h() { $e })* };
}
h! {
    h_c42_dq_bistable bistable();
    h_c42_dq_edges edges();
    h_c42_dq_ctu ctu!(CTU i16);
    h_c42_dq_ctu_int ctu!(CTU_INT i16);
    h_c42_dq_ctu_dint ctu!(CTU_DINT i32);
    h_c42_dq_ctu_udint ctu!(CTU_UDINT u32);
    h_c42_dq_ctu_lint ctu!(CTU_LINT i64);
    h_c42_dq_ctu_ulint ctu!(CTU_ULINT u64);
    h_c42_dq_ctd ctd!(CTD i16);
    h_c42_dq_ctd_int ctd!(CTD_INT i16);
    h_c42_dq_ctd_dint ctd!(CTD_DINT i32);
    h_c42_dq_ctd_udint ctd!(CTD_UDINT u32);
    h_c42_dq_ctd_lint ctd!(CTD_LINT i64);
    h_c42_dq_ctd_ulint ctd!(CTD_ULINT u64);
    h_c42_dq_ctud ctud!(CTUD i16);
    h_c42_dq_ctud_int ctud!(CTUD_INT i16);
    h_c42_dq_ctud_dint ctud!(CTUD_DINT i32);
    h_c42_dq_ctud_udint ctud!(CTUD_UDINT u32);
    h_c42_dq_ctud_lint ctud!(CTUD_LINT i64);
    h_c42_dq_ctud_ulint ctud!(CTUD_ULINT u64);
    h_c42_dq_tp timer!(TP 0);
    h_c42_dq_tp_time timer!(TP_TIME 0);
    h_c42_dq_tp_ltime timer!(TP_LTIME 0);
    h_c42_dq_ton timer!(TON 1);
    h_c42_dq_ton_time timer!(TON_TIME 1);
    h_c42_dq_ton_ltime timer!(TON_LTIME 1);
    h_c42_dq_tof timer!(TOF 2);
    h_c42_dq_tof_time timer!(TOF_TIME 2);
    h_c42_dq_tof_ltime timer!(TOF_LTIME 2);
}
