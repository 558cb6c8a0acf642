use super::clk;
use super::tim::{self, *};
use crate::api::*;
const FILE: u32 = 50;
extern "C" {
    fn TOF(p: *mut P);
    fn TOF_TIME(p: *mut P);
    fn TOF_LTIME(p: *mut P);
}
struct Tof {
    p: *mut P,
    f: F,
    pt: i64,
    last: bool,
    /// call that saw the falling edge
    run: Option<When>,
    over: bool,
}
unsafe fn tof(f: F) -> Tof {
    Tof { p: fresh(), f, pt: 0, last: false, run: None, over: false }
}
/// PT is chosen anew whenever the timer is not running
unsafe fn step(t: &mut Tof, pt: unsafe fn() -> i64) {
    let inp = tim::input();
    if t.run.is_none() {
        t.pt = pt();
    }
    let w = call(t.f, t.p, inp, t.pt);
    let (q, et) = ((*t.p).q, (*t.p).et);
    let ok = if inp {
        let first = !t.last;
        t.run = None;
        q & (!first | (et == 0))
    } else if t.last {
        let d = w.hi - w.lo;
        t.run = Some(w);
        t.over = false;
        q & capped(et, t.pt, 0, d)
    } else {
        match &t.run {
            None => !q & (et == 0),
            Some(s) => {
                let (lo, hi) = (w.lo - s.hi, w.hi - s.lo);
                let must = hi <= t.pt;
                let must_not = (lo > t.pt) | t.over;
                t.over |= !q;
                capped(et, t.pt, lo, hi) & !(must & !q) & !(must_not & q)
            }
        }
    };
    t.last = inp;
    check!(ok);
}
unsafe fn any_pt() -> i64 {
    tim::pt()
}
unsafe fn top_pt() -> i64 {
    tim::pt_top()
}
unsafe fn history(f: F, n: u32, moving: bool) {
    clk::start(1 << 29, moving);
    let mut t = tof(f);
    let mut i = 0;
    while i < n {
        step(&mut t, any_pt);
        i += 1;
    }
}
unsafe fn pair(n: u32) {
    clk::start(1 << 29, false);
    let mut a = tof(TOF);
    let mut b = tof(TOF_LTIME);
    let mut i = 0;
    while i < n {
        if choose(2) == 0 {
            step(&mut a, any_pt);
        } else {
            step(&mut b, any_pt);
        }
        i += 1;
    }
}
unsafe fn top() {
    clk::start(1 << 29, false);
    let mut t = tof(TOF);
    step(&mut t, top_pt);
    step(&mut t, top_pt);
    step(&mut t, top_pt);
    step(&mut t, top_pt);
}
/// PT is another one with every call, as long as the output is TRUE
unsafe fn retune(f: F) {
    clk::start(1 << 29, false);
    let p = fresh();
    call(f, p, true, any_pt());
    let a = call(f, p, false, any_pt()).lo;
    check!((*p).q & ((*p).et == 0));
    let mut i = 0;
    while i < 2 && (*p).q {
        let pt = any_pt();
        let d = call(f, p, false, pt).lo - a;
        check!(((*p).q == (d <= pt)) & capped((*p).et, pt, d, d));
        i += 1;
    }
}
macro_rules! h {
    ($($h:ident $e:expr;)*) => { $(#[no_mangle] pub unsafe extern "C" fn $h() { $e })* };
}
h! {
    h_c05_dq_tof0 { tim::script(0, 3); history(TOF, 4, false) };
    h_c05_dq_tof1 { tim::script(1, 3); history(TOF, 4, false) };
    h_c05_dq_tof2 { tim::script(2, 3); history(TOF, 4, false) };
    h_c05_dq_tof3 { tim::script(3, 3); history(TOF, 4, false) };
    h_c05_dq_tof4 { tim::script(4, 3); history(TOF, 4, false) };
    h_c05_dq_tof5 { tim::script(5, 3); history(TOF, 4, false) };
    h_c05_dq_tof6 { tim::script(6, 3); history(TOF, 4, false) };
    h_c05_dq_tof7 { tim::script(7, 3); history(TOF, 4, false) };
    h_c05_dq_time history(TOF_TIME, 3, false);
    h_c05_dq_ltime history(TOF_LTIME, 4, false);
    h_c05_dq_moving history(TOF, 3, true);
    h_c05_dq_pair pair(3);
    h_c05_dq_top top();
    h_c05_dq_retune retune(TOF);
    h_c05_rq_tof history(TOF, 3, false);
    h_c05_dt_tof history(TOF, 5, false);
    h_c05_rt_tof history(TOF, 5, false);
    h_c05_dt_moving history(TOF, 4, true);
    h_c05_rt_moving history(TOF, 4, true);
    h_c05_dt_pair pair(5);
}
