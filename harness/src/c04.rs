use super::clk;
use super::tim::{self, *};
use crate::api::*;
const FILE: u32 = 40;
extern "C" {
    fn TON(p: *mut P);
    fn TON_TIME(p: *mut P);
    fn TON_LTIME(p: *mut P);
}
struct Ton {
    p: *mut P,
    f: F,
    pt: i64,
    /// call that saw the rising edge
    run: Option<When>,
    fired: bool,
}
unsafe fn ton(f: F) -> Ton {
    Ton { p: fresh(), f, pt: 0, run: None, fired: false }
}
/// PT is chosen anew with every rising edge
unsafe fn step(t: &mut Ton, pt: unsafe fn() -> i64) {
    let inp = tim::input();
    if t.run.is_none() {
        t.pt = pt();
    }
    let w = call(t.f, t.p, inp, t.pt);
    let (q, et) = ((*t.p).q, (*t.p).et);
    let ok = if !inp {
        t.run = None;
        !q & (et == 0)
    } else {
        match &t.run {
            None => {
                let d = w.hi - w.lo;
                t.run = Some(w);
                t.fired = false;
                !q & capped(et, t.pt, 0, d)
            }
            Some(s) => {
                let (lo, hi) = (w.lo - s.hi, w.hi - s.lo);
                // lo <= elapsed <= hi
                let must_not = hi <= t.pt;
                let must = (lo > t.pt) | t.fired;
                t.fired |= q;
                capped(et, t.pt, lo, hi) & !(must_not & q) && !(must & !q)
            }
        }
    };
    check!(ok);
}
unsafe fn any_pt() -> i64 {
    tim::pt()
}
unsafe fn top_pt() -> i64 {
    tim::pt_top()
}
/// a history of n calls of a fresh instance; the clock stands still within a call
unsafe fn history(f: F, n: u32, moving: bool) {
    clk::start(1 << 29, moving);
    let mut t = ton(f);
    let mut i = 0;
    while i < n {
        step(&mut t, any_pt);
        i += 1;
    }
}
unsafe fn pair(n: u32) {
    clk::start(1 << 29, false);
    let mut a = ton(TON);
    let mut b = ton(TON_LTIME);
    let mut i = 0;
    while i < n {
        if choose(2) == 0 {
            step(&mut a, any_pt);
        } else {
            step(&mut b, any_pt);
        }
        i += 1;
    }
}
unsafe fn top() {
    clk::start(1 << 29, false);
    let mut t = ton(TON);
    step(&mut t, top_pt);
    step(&mut t, top_pt);
    step(&mut t, top_pt);
}
/// PT is another one with every call
unsafe fn retune(f: F) {
    clk::start(1 << 29, false);
    let p = fresh();
    let a = call(f, p, true, any_pt()).lo;
    check!(!(*p).q & ((*p).et == 0));
    let mut i = 0;
    while i < 2 {
        let pt = any_pt();
        let d = call(f, p, true, pt).lo - a;
        check!(((*p).q == (d > pt)) & capped((*p).et, pt, d, d));
        i += 1;
    }
}
macro_rules! h {
    ($($h:ident $e:expr;)*) => { $(#[no_mangle] pub unsafe extern "C" fn $h() { $e })* };
}
h! {
    h_c04_dq_ton0 { tim::script(0, 2); history(TON, 4, false) };
    h_c04_dq_ton1 { tim::script(1, 2); history(TON, 4, false) };
    h_c04_dq_ton2 { tim::script(2, 2); history(TON, 4, false) };
    h_c04_dq_ton3 { tim::script(3, 2); history(TON, 4, false) };
    h_c04_dq_time history(TON_TIME, 3, false);
    h_c04_dq_ltime history(TON_LTIME, 3, false);
    h_c04_dq_moving history(TON, 2, true);
    h_c04_dq_pair pair(3);
    h_c04_dq_top top();
    h_c04_dq_retune retune(TON);
    h_c04_rq_ton history(TON, 3, false);
    h_c04_dt_ton history(TON, 5, false);
    h_c04_rt_ton history(TON, 5, false);
    h_c04_dt_moving history(TON, 3, true);
    h_c04_rt_moving history(TON, 3, true);
    h_c04_dt_pair pair(5);
}
