use crate::api::*;
const FILE: u32 = 1;
#[repr(C)]
struct Fb {
    set: bool,
    reset: bool,
    output: bool,
}
extern "C" {
    fn SR(p: *mut Fb);
    fn RS(p: *mut Fb);
}
fn model(sr: bool, set: bool, reset: bool, out: bool) -> bool {
    if sr {
        if set { true } else if reset { false } else { out }
    } else if reset { false } else if set { true } else { out }
}
unsafe fn call(sr: bool, p: *mut Fb) {
    if sr {
        SR(p)
    } else {
        RS(p)
    }
}
/// one call from an arbitrary instance state
unsafe fn step(sr: bool) {
    let mut p = Fb { set: boolv(), reset: boolv(), output: boolv() };
    let (s, r, o) = (p.set, p.reset, p.output);
    call(sr, &mut p);
    check!(p.output == model(sr, s, r, o));
    check!(p.set == s && p.reset == r);
}
/// histories of two fresh instances
unsafe fn hist(sr: bool, n: usize) {
    let mut a = Fb { set: false, reset: false, output: false };
    let mut b = Fb { set: false, reset: false, output: false };
    let (mut oa, mut ob) = (false, false);
    for _ in 0..n {
        let second = boolv();
        let (s, r) = (boolv(), boolv());
        if second {
            b.set = s;
            b.reset = r;
            call(sr, &mut b);
            ob = model(sr, s, r, ob);
        } else {
            a.set = s;
            a.reset = r;
            call(sr, &mut a);
            oa = model(sr, s, r, oa);
        }
        check!(a.output == oa && b.output == ob);
    }
}
#[no_mangle]
pub unsafe extern "C" fn h_c01_dq_sr_step() {
    step(true)
}
#[no_mangle]
pub unsafe extern "C" fn h_c01_dq_rs_step() {
    step(false)
}
#[no_mangle]
pub unsafe extern "C" fn h_c01_dq_sr_history() {
    hist(true, 4)
}
#[no_mangle]
pub unsafe extern "C" fn h_c01_dq_rs_history() {
    hist(false, 4)
}
#[no_mangle]
pub unsafe extern "C" fn h_c01_rq_step() {
    step(true);
    step(false)
}
#[no_mangle]
pub unsafe extern "C" fn h_c01_dt_sr_history() {
    hist(true, 8)
}
#[no_mangle]
pub unsafe extern "C" fn h_c01_dt_rs_history() {
    hist(false, 8)
}
