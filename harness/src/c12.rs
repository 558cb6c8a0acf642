use crate::api::*;
const FILE: u32 = 12;
extern "C" {
    fn ROUND__REAL(x: f32) -> f32;
    fn ROUND__LREAL(x: f64) -> f64;
}
/// the wanted result, on the bits of the number alone: mb mantissa bits, exponent e (already unbiased)
fn spec(bits: u64, e: i64, mb: u32, bias: u64) -> u64 {
    let sign = bits >> 63;
    let s = sign << 63;
    if e < -1 {
        return s;
    }
    if e == -1 {
        return s | bias << mb;
    }
    if e >= mb as i64 {
        return bits;
    }
    let half = 1u64 << (mb as i64 - e - 1);
    // a carry out of the mantissa goes into the exponent, as it should
    (bits + half) & !(2 * half - 1)
}
unsafe fn real(e: i64) {
    let m = ur(32, 0, (1 << 23) - 1) as u32;
    let sign = ur(1, 0, 1) as u32;
    let b = sign << 31 | ((e + 127) as u32) << 23 | m;
    // the same number with the sign in bit 63
    let w = (sign as u64) << 63 | ((e + 127) as u64) << 23 | m as u64;
    let r = ROUND__REAL(f32::from_bits(b)).to_bits();
    let want = spec(w, e, 23, 127);
    check!(r == ((want >> 63) << 31) as u32 | want as u32 & 0x7fff_ffff);
}
unsafe fn lreal(e: i64) {
    let m = ur(64, 0, (1 << 52) - 1);
    let sign = ur(1, 0, 1);
    let b = sign << 63 | ((e + 1023) as u64) << 52 | m;
    let r = ROUND__LREAL(f64::from_bits(b)).to_bits();
    check!(r == spec(b, e, 52, 1023));
}
/// exponents with a fractional part, one by one
#[no_mangle]
pub unsafe extern "C" fn h_c12_dq_real() {
    real(choose(26) as i64 - 2)
}
#[no_mangle]
pub unsafe extern "C" fn h_c12_dq_lreal() {
    lreal(choose(55) as i64 - 2)
}
/// all others: below a quarter (and subnormals), and large numbers
#[no_mangle]
pub unsafe extern "C" fn h_c12_dq_real_rest() {
    let e = if boolv() { sr(32, -127, -3) } else { sr(32, 24, 127) };
    real(if e < 0 { e } else { e })
}
#[no_mangle]
pub unsafe extern "C" fn h_c12_dq_lreal_rest() {
    let e = if boolv() { sr(32, -1023, -3) } else { sr(32, 53, 1023) };
    lreal(e)
}
#[no_mangle]
pub unsafe extern "C" fn h_c12_dq_special() {
    let s = boolv();
    let (i, j) = if s { (f32::NEG_INFINITY, f64::NEG_INFINITY) } else { (f32::INFINITY, f64::INFINITY) };
    check!(ROUND__REAL(i).to_bits() == i.to_bits());
    check!(ROUND__LREAL(j).to_bits() == j.to_bits());
    check!(ROUND__REAL(f32::from_bits(ur(32, 0x7f80_0001, 0x7fff_ffff) as u32 | (s as u32) << 31)).is_nan());
    check!(ROUND__LREAL(f64::from_bits(ur(64, 0x7ff0_0000_0000_0001, 0x7fff_ffff_ffff_ffff) | (s as u64) << 63)).is_nan());
}
#[no_mangle]
pub unsafe extern "C" fn h_c12_rq_both() {
    real(choose(26) as i64 - 2);
    lreal(choose(2) as i64 - 1);
}
