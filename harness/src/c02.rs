use crate::api::*;
const FILE: u32 = 2;
#[repr(C)]
struct Fb {
    clk: bool,
    q: bool,
    internal: bool,
}
extern "C" {
    fn R_TRIG(p: *mut Fb);
    fn F_TRIG(p: *mut Fb);
}
unsafe fn call(rise: bool, p: *mut Fb) {
    if rise {
        R_TRIG(p)
    } else {
        F_TRIG(p)
    }
}
fn edge(rise: bool, prev: bool, now: bool) -> bool {
    if rise {
        now && !prev
    } else {
        !now && prev
    }
}
/// two calls: the first fixes the previous value of CLK whatever the instance held before
unsafe fn step(rise: bool) {
    let mut p = Fb { clk: boolv(), q: boolv(), internal: boolv() };
    let c0 = p.clk;
    call(rise, &mut p);
    check!(p.clk == c0);
    let c1 = boolv();
    p.clk = c1;
    p.q = boolv();
    call(rise, &mut p);
    check!(p.q == edge(rise, c0, c1));
    check!(p.clk == c1);
}
unsafe fn hist(rise: bool, n: usize) {
    let mut a = Fb { clk: false, q: false, internal: false };
    let mut b = Fb { clk: false, q: false, internal: false };
    let (mut pa, mut pb) = (false, false);
    for _ in 0..n {
        let second = boolv();
        let c = boolv();
        if second {
            let q = a.q;
            b.clk = c;
            call(rise, &mut b);
            check!(b.q == edge(rise, pb, c) && a.q == q);
            pb = c;
        } else {
            let q = b.q;
            a.clk = c;
            call(rise, &mut a);
            check!(a.q == edge(rise, pa, c) && b.q == q);
            pa = c;
        }
    }
}
#[no_mangle]
pub unsafe extern "C" fn h_c02_dq_r_step() {
    step(true)
}
#[no_mangle]
pub unsafe extern "C" fn h_c02_dq_f_step() {
    step(false)
}
#[no_mangle]
pub unsafe extern "C" fn h_c02_dq_r_history() {
    hist(true, 5)
}
#[no_mangle]
pub unsafe extern "C" fn h_c02_dq_f_history() {
    hist(false, 5)
}
#[no_mangle]
pub unsafe extern "C" fn h_c02_rq_step() {
    step(true);
    step(false)
}
#[no_mangle]
pub unsafe extern "C" fn h_c02_dt_r_history() {
    hist(true, 10)
}
#[no_mangle]
pub unsafe extern "C" fn h_c02_dt_f_history() {
    hist(false, 10)
}
