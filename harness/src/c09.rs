use crate::api::*;
const FILE: u32 = 9;
extern "C" {
    fn LWORD_TO_LREAL(x: u64) -> f64;
    fn LREAL_TO_LWORD(x: f64) -> u64;
    fn DWORD_TO_REAL(x: u32) -> f32;
    fn REAL_TO_DWORD(x: f32) -> u32;
}
unsafe fn dword() {
    let b = u32v();
    let k = b & 0x007f_ffff;
    let e = (b >> 23) & 0xff;
    check!(REAL_TO_DWORD(DWORD_TO_REAL(b)) == b);
    check!(REAL_TO_DWORD(f32::from_bits(b)) == b);
    let x = DWORD_TO_REAL(b);
    check!(x.to_bits() == b);
    check!(x.is_nan() == (e == 255 && k != 0));
}
unsafe fn lword() {
    let b = u64v();
    let k = b & 0x000f_ffff_ffff_ffff;
    let e = (b >> 52) & 0x7ff;
    check!(LREAL_TO_LWORD(LWORD_TO_LREAL(b)) == b);
    check!(LREAL_TO_LWORD(f64::from_bits(b)) == b);
    let x = LWORD_TO_LREAL(b);
    check!(x.to_bits() == b);
    check!(x.is_nan() == (e == 2047 && k != 0));
}
#[no_mangle]
pub unsafe extern "C" fn h_c09_dq_dword() {
    dword()
}
#[no_mangle]
pub unsafe extern "C" fn h_c09_dq_lword() {
    lword()
}
#[no_mangle]
pub unsafe extern "C" fn h_c09_rq_both() {
    if choose(2) == 0 {
        dword()
    } else {
        lword()
    }
}
