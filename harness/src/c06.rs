use super::clk;
use super::tim::{self, *};
use crate::api::*;
const FILE: u32 = 60;
extern "C" {
    fn TP(p: *mut P);
    fn TP_TIME(p: *mut P);
    fn TP_LTIME(p: *mut P);
}
struct Tp {
    p: *mut P,
    f: F,
    pt: i64,
    last: bool,
    /// call that started the pulse, until the pulse has expired and IN is FALSE
    run: Option<When>,
    over: bool,
}
unsafe fn tp(f: F) -> Tp {
    Tp { p: fresh(), f, pt: 0, last: false, run: None, over: false }
}
/// PT is chosen anew whenever no pulse is remembered
unsafe fn step(t: &mut Tp, pt: unsafe fn() -> i64) {
    let inp = tim::input();
    if t.run.is_none() {
        t.pt = pt();
    }
    let w = call(t.f, t.p, inp, t.pt);
    let (q, et) = ((*t.p).q, (*t.p).et);
    let rising = inp & !t.last;
    t.last = inp;
    let ok;
    match &t.run {
        None => {
            if rising {
                let d = w.hi - w.lo;
                t.run = Some(w);
                t.over = false;
                ok = q & capped(et, t.pt, 0, d);
            } else {
                ok = !q & (et == 0);
            }
        }
        Some(s) => {
            let (lo, hi) = (w.lo - s.hi, w.hi - s.lo);
            let active = hi <= t.pt;
            let expired = (lo > t.pt) | t.over;
            if rising {
                // a rising edge in a call during which the pulse expires may count or not
                assume(active | expired);
                if expired {
                    let d = w.hi - w.lo;
                    t.run = Some(w);
                    t.over = false;
                    ok = q & capped(et, t.pt, 0, d);
                } else {
                    ok = q & capped(et, t.pt, lo, hi);
                }
            } else {
                ok = !(active & !q) & !(expired & q) & if inp { capped(et, t.pt, lo, hi) } else { (q & capped(et, t.pt, lo, hi)) | (!q & (et == 0)) };
                if !q {
                    t.over = true;
                    if !inp {
                        t.run = None;
                    }
                }
            }
        }
    }
    check!(ok);
}
unsafe fn any_pt() -> i64 {
    tim::pt()
}
unsafe fn top_pt() -> i64 {
    tim::pt_top()
}
unsafe fn history(f: F, n: u32, moving: bool) {
    clk::start(1 << 29, moving);
    let mut t = tp(f);
    let mut i = 0;
    while i < n {
        step(&mut t, any_pt);
        i += 1;
    }
}
unsafe fn pair(n: u32) {
    clk::start(1 << 29, false);
    let mut a = tp(TP);
    let mut b = tp(TP_LTIME);
    let mut i = 0;
    while i < n {
        if choose(2) == 0 {
            step(&mut a, any_pt);
        } else {
            step(&mut b, any_pt);
        }
        i += 1;
    }
}
unsafe fn top() {
    clk::start(1 << 29, false);
    let mut t = tp(TP);
    step(&mut t, top_pt);
    step(&mut t, top_pt);
    step(&mut t, top_pt);
}
/// PT is another one with every call of the pulse
unsafe fn retune(f: F) {
    clk::start(1 << 29, false);
    let p = fresh();
    let a = call(f, p, true, any_pt()).lo;
    check!((*p).q & ((*p).et == 0));
    let mut i = 0;
    while i < 2 && (*p).q {
        let (inp, pt) = (i == 0 || choose(2) == 1, any_pt());
        let d = call(f, p, inp, pt).lo - a;
        check!((*p).q == (d <= pt));
        check!(!((*p).q | inp) | capped((*p).et, pt, d, d));
        i += 1;
    }
}
macro_rules! h {
    ($($h:ident $e:expr;)*) => { $(#[no_mangle] pub unsafe extern "C" fn $h() { $e })* };
}
h! {
    h_c06_dq_tp0 { tim::script(0, 3); history(TP, 4, false) };
    h_c06_dq_tp1 { tim::script(1, 3); history(TP, 4, false) };
    h_c06_dq_tp2 { tim::script(2, 3); history(TP, 4, false) };
    h_c06_dq_tp3 { tim::script(3, 3); history(TP, 4, false) };
    h_c06_dq_tp4 { tim::script(4, 3); history(TP, 4, false) };
    h_c06_dq_tp5 { tim::script(5, 3); history(TP, 4, false) };
    h_c06_dq_tp6 { tim::script(6, 3); history(TP, 4, false) };
    h_c06_dq_tp7 { tim::script(7, 3); history(TP, 4, false) };
    h_c06_dq_time history(TP_TIME, 3, false);
    h_c06_dq_ltime history(TP_LTIME, 3, false);
    h_c06_dq_moving history(TP, 2, true);
    h_c06_dq_pair pair(3);
    h_c06_dq_top top();
    h_c06_dq_retune retune(TP);
    h_c06_rq_tp history(TP, 3, false);
    h_c06_dt_tp history(TP, 5, false);
    h_c06_rt_tp history(TP, 5, false);
    h_c06_dt_moving history(TP, 3, true);
    h_c06_rt_moving history(TP, 3, true);
    h_c06_dt_pair pair(4);
}
