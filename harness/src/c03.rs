use crate::api::*;
const FILE: u32 = 3;
#[repr(C)]
#[derive(Clone, Copy)]
struct Ctu<T> {
    cu: bool,
    r: bool,
    pv: T,
    q: bool,
    cv: T,
    internal: bool,
}
#[repr(C)]
#[derive(Clone, Copy)]
struct Ctd<T> {
    cd: bool,
    ld: bool,
    pv: T,
    q: bool,
    cv: T,
    internal: bool,
}
#[repr(C)]
#[derive(Clone, Copy)]
struct Ctud<T> {
    cu: bool,
    cd: bool,
    r: bool,
    ld: bool,
    pv: T,
    qu: bool,
    qd: bool,
    cv: T,
    up: bool,
    down: bool,
}
extern "C" {
    fn CTU(p: *mut Ctu<i16>);
    fn CTU_INT(p: *mut Ctu<i16>);
    fn CTU_DINT(p: *mut Ctu<i32>);
    fn CTU_UDINT(p: *mut Ctu<u32>);
    fn CTU_LINT(p: *mut Ctu<i64>);
    fn CTU_ULINT(p: *mut Ctu<u64>);
    fn CTD(p: *mut Ctd<i16>);
    fn CTD_INT(p: *mut Ctd<i16>);
    fn CTD_DINT(p: *mut Ctd<i32>);
    fn CTD_UDINT(p: *mut Ctd<u32>);
    fn CTD_LINT(p: *mut Ctd<i64>);
    fn CTD_ULINT(p: *mut Ctd<u64>);
    fn CTUD(p: *mut Ctud<i16>);
    fn CTUD_INT(p: *mut Ctud<i16>);
    fn CTUD_DINT(p: *mut Ctud<i32>);
    fn CTUD_UDINT(p: *mut Ctud<u32>);
    fn CTUD_LINT(p: *mut Ctud<i64>);
    fn CTUD_ULINT(p: *mut Ctud<u64>);
}
/// one call of an up-counter, compared with the rule; `mem` is CU in the last call without reset
macro_rules! ctu_call {
    ($f:ident, $t:ty, $p:expr, $mem:expr, $r:expr) => {{
        let p: &mut Ctu<$t> = $p;
        let (cu, pv, cv) = (boolv(), <$t>::any(), p.cv);
        p.cu = cu;
        p.r = $r;
        p.pv = pv;
        p.q = boolv();
        $f(p);
        let want = if $r { 0 } else if cu && !$mem && cv < <$t>::MAX { cv + 1 } else { cv };
        if !$r {
            $mem = cu;
        }
        check!(p.cv == want);
        check!(p.q == (want >= pv));
        check!(p.cu == cu && p.r == $r && p.pv == pv);
    }};
}
macro_rules! ctd_call {
    ($f:ident, $t:ty, $p:expr, $mem:expr, $ld:expr) => {{
        let p: &mut Ctd<$t> = $p;
        let (cd, pv, cv) = (boolv(), <$t>::any(), p.cv);
        p.cd = cd;
        p.ld = $ld;
        p.pv = pv;
        p.q = boolv();
        $f(p);
        let want = if $ld { pv } else if cd && !$mem && cv > <$t>::MIN { cv - 1 } else { cv };
        if !$ld {
            $mem = cd;
        }
        check!(p.cv == want);
        check!(p.q == (want <= 0));
        check!(p.cd == cd && p.ld == $ld && p.pv == pv);
    }};
}
macro_rules! ctud_call {
    ($f:ident, $t:ty, $p:expr, $mu:expr, $md:expr, $r:expr, $ld:expr) => {{
        let p: &mut Ctud<$t> = $p;
        let (cu, cd, r, ld, pv, cv) = (boolv(), boolv(), $r, $ld, <$t>::any(), p.cv);
        p.cu = cu;
        p.cd = cd;
        p.r = r;
        p.ld = ld;
        p.pv = pv;
        p.qu = boolv();
        p.qd = boolv();
        $f(p);
        let up = cu && !$mu;
        let down = cd && !$md;
        let want = if r {
            0
        } else if ld {
            pv
        } else if up && !down && cv < <$t>::MAX {
            cv + 1
        } else if down && !up && cv > <$t>::MIN {
            cv - 1
        } else {
            cv
        };
        if !r && !ld {
            $mu = cu;
            $md = cd;
        }
        check!(p.cv == want);
        check!(p.qu == (want >= pv));
        check!(p.qd == (want <= 0));
        check!(p.cu == cu && p.cd == cd && p.r == r && p.ld == ld && p.pv == pv);
    }};
}
/// arbitrary instance state -> a call that fixes the edge memory -> arbitrary CV -> a reset -> arbitrary CV -> arbitrary call
macro_rules! ctu {
    ($h:ident, $hist:ident, $f:ident, $t:ty) => {
        #[no_mangle]
        pub unsafe extern "C" fn $h() {
            let mut p = Ctu::<$t> { cu: boolv(), r: false, pv: <$t>::any(), q: boolv(), cv: <$t>::any(), internal: boolv() };
            let mut mem = p.cu;
            $f(&mut p);
            p.cv = <$t>::any();
            if choose(2) == 1 {
                ctu_call!($f, $t, &mut p, mem, true);
                p.cv = <$t>::any();
            }
            let r = boolv();
            ctu_call!($f, $t, &mut p, mem, r);
        }
        #[no_mangle]
        pub unsafe extern "C" fn $hist() {
            let mut p = Ctu::<$t> { cu: false, r: false, pv: 0, q: false, cv: 0, internal: false };
            let mut mem = false;
            for _ in 0..3 {
                let r = boolv();
                ctu_call!($f, $t, &mut p, mem, r);
            }
        }
    };
}
macro_rules! ctd {
    ($h:ident, $hist:ident, $f:ident, $t:ty) => {
        #[no_mangle]
        pub unsafe extern "C" fn $h() {
            let mut p = Ctd::<$t> { cd: boolv(), ld: false, pv: <$t>::any(), q: boolv(), cv: <$t>::any(), internal: boolv() };
            let mut mem = p.cd;
            $f(&mut p);
            p.cv = <$t>::any();
            if choose(2) == 1 {
                ctd_call!($f, $t, &mut p, mem, true);
                p.cv = <$t>::any();
            }
            let r = boolv();
            ctd_call!($f, $t, &mut p, mem, r);
        }
        #[no_mangle]
        pub unsafe extern "C" fn $hist() {
            let mut p = Ctd::<$t> { cd: false, ld: false, pv: 0, q: false, cv: 0, internal: false };
            let mut mem = false;
            for _ in 0..3 {
                let r = boolv();
                ctd_call!($f, $t, &mut p, mem, r);
            }
        }
    };
}
macro_rules! ctud {
    ($h:ident, $hist:ident, $f:ident, $t:ty) => {
        #[no_mangle]
        pub unsafe extern "C" fn $h() {
            let mut p = Ctud::<$t> { cu: boolv(), cd: boolv(), r: false, ld: false, pv: <$t>::any(), qu: boolv(), qd: boolv(), cv: <$t>::any(), up: boolv(), down: boolv() };
            let (mut mu, mut md) = (p.cu, p.cd);
            $f(&mut p);
            p.cv = <$t>::any();
            if choose(2) == 1 {
                if choose(2) == 1 {
                    let ld = boolv();
                    ctud_call!($f, $t, &mut p, mu, md, true, ld);
                } else {
                    ctud_call!($f, $t, &mut p, mu, md, false, true);
                }
                p.cv = <$t>::any();
            }
            let r = boolv();
            let ld = boolv();
            ctud_call!($f, $t, &mut p, mu, md, r, ld);
        }
        #[no_mangle]
        pub unsafe extern "C" fn $hist() {
            let mut p = Ctud::<$t> { cu: false, cd: false, r: false, ld: false, pv: 0, qu: false, qd: false, cv: 0, up: false, down: false };
            let (mut mu, mut md) = (false, false);
            for _ in 0..2 {
                let r = boolv();
                let ld = boolv();
                ctud_call!($f, $t, &mut p, mu, md, r, ld);
            }
        }
    };
}
ctu!(h_c03_dq_ctu, h_c03_dq_ctu_history, CTU, i16);
ctu!(h_c03_dq_ctu_int, h_c03_dq_ctu_int_history, CTU_INT, i16);
ctu!(h_c03_dq_ctu_dint, h_c03_dq_ctu_dint_history, CTU_DINT, i32);
ctu!(h_c03_dq_ctu_udint, h_c03_dq_ctu_udint_history, CTU_UDINT, u32);
ctu!(h_c03_dq_ctu_lint, h_c03_dq_ctu_lint_history, CTU_LINT, i64);
ctu!(h_c03_dq_ctu_ulint, h_c03_dq_ctu_ulint_history, CTU_ULINT, u64);
ctu!(h_c03_rq_ctu_int, h_c03_rt_ctu_int_history, CTU_INT, i16);
ctu!(h_c03_rq_ctu_udint, h_c03_rt_ctu_udint_history, CTU_UDINT, u32);
ctu!(h_c03_rq_ctu_lint, h_c03_rt_ctu_lint_history, CTU_LINT, i64);
ctd!(h_c03_dq_ctd, h_c03_dq_ctd_history, CTD, i16);
ctd!(h_c03_dq_ctd_int, h_c03_dq_ctd_int_history, CTD_INT, i16);
ctd!(h_c03_dq_ctd_dint, h_c03_dq_ctd_dint_history, CTD_DINT, i32);
ctd!(h_c03_dq_ctd_udint, h_c03_dq_ctd_udint_history, CTD_UDINT, u32);
ctd!(h_c03_dq_ctd_lint, h_c03_dq_ctd_lint_history, CTD_LINT, i64);
ctd!(h_c03_dq_ctd_ulint, h_c03_dq_ctd_ulint_history, CTD_ULINT, u64);
ctd!(h_c03_rq_ctd_int, h_c03_rt_ctd_int_history, CTD_INT, i16);
ctd!(h_c03_rq_ctd_udint, h_c03_rt_ctd_udint_history, CTD_UDINT, u32);
ctd!(h_c03_rq_ctd_lint, h_c03_rt_ctd_lint_history, CTD_LINT, i64);
ctud!(h_c03_dq_ctud, h_c03_dq_ctud_history, CTUD, i16);
ctud!(h_c03_dq_ctud_int, h_c03_dq_ctud_int_history, CTUD_INT, i16);
ctud!(h_c03_dq_ctud_dint, h_c03_dq_ctud_dint_history, CTUD_DINT, i32);
ctud!(h_c03_dq_ctud_udint, h_c03_dq_ctud_udint_history, CTUD_UDINT, u32);
ctud!(h_c03_dq_ctud_lint, h_c03_dq_ctud_lint_history, CTUD_LINT, i64);
ctud!(h_c03_dq_ctud_ulint, h_c03_dq_ctud_ulint_history, CTUD_ULINT, u64);
ctud!(h_c03_rq_ctud_int, h_c03_rt_ctud_int_history, CTUD_INT, i16);
ctud!(h_c03_rq_ctud_udint, h_c03_rt_ctud_udint_history, CTUD_UDINT, u32);
ctud!(h_c03_rq_ctud_lint, h_c03_rt_ctud_lint_history, CTUD_LINT, i64);
