//! The operations of the platform's mathematical library are uninterpreted functions of the argument's bits: the
//! library has to call the one it is named after, with its own operands, in its own precision. Zones of arguments
//! are separate paths so that a counterexample lies where the operations really differ.
use crate::api::*;
const FILE: u32 = 13;
extern "C" {
    fn SQRT__REAL(x: f32) -> f32;
    fn LN__REAL(x: f32) -> f32;
    fn LOG__REAL(x: f32) -> f32;
    fn EXP__REAL(x: f32) -> f32;
    fn SIN__REAL(x: f32) -> f32;
    fn COS__REAL(x: f32) -> f32;
    fn TAN__REAL(x: f32) -> f32;
    fn ASIN__REAL(x: f32) -> f32;
    fn ACOS__REAL(x: f32) -> f32;
    fn ATAN__REAL(x: f32) -> f32;
    fn ATAN2__REAL(y: f32, x: f32) -> f32;
    fn SQRT__LREAL(x: f64) -> f64;
    fn LN__LREAL(x: f64) -> f64;
    fn LOG__LREAL(x: f64) -> f64;
    fn EXP__LREAL(x: f64) -> f64;
    fn SIN__LREAL(x: f64) -> f64;
    fn COS__LREAL(x: f64) -> f64;
    fn TAN__LREAL(x: f64) -> f64;
    fn ASIN__LREAL(x: f64) -> f64;
    fn ACOS__LREAL(x: f64) -> f64;
    fn ATAN__LREAL(x: f64) -> f64;
    fn ATAN2__LREAL(y: f64, x: f64) -> f64;
    fn EXPT__REAL__DINT(b: f32, e: i32) -> f32;
    fn EXPT__LREAL__DINT(b: f64, e: i32) -> f64;
    fn EXPT__REAL__REAL(b: f32, e: f32) -> f32;
    fn EXPT__REAL__LREAL(b: f32, e: f64) -> f32;
    fn EXPT__LREAL__REAL(b: f64, e: f32) -> f64;
    fn EXPT__LREAL__LREAL(b: f64, e: f64) -> f64;
    static PI_LREAL: f64;
    static PI_REAL: f32;
    static FRAC_PI_2_LREAL: f64;
    static FRAC_PI_2_REAL: f32;
    static FRAC_PI_4_LREAL: f64;
    static FRAC_PI_4_REAL: f32;
    static E_LREAL: f64;
    static E_REAL: f32;
}
const ZONES: u64 = 14;
/// the zones together are every bit pattern
fn zone(k: u64) -> (f64, f64, bool) {
    let (a, b) = [(0.25, 0.75), (1.5, 64.0), (0.75, 1.5), (64.0, 1e30), (1e-30, 0.25), (0.0, 1e-30), (1e30, f64::NAN)][(k / 2) as usize];
    (a, b, k % 2 == 1)
}
/// bases at which different exponents give different results
const NEAR: u64 = ZONES;
fn z32(k: u64) -> f32 {
    if k == NEAR {
        return f32::from_bits(ur(32, 0x3f7f_f800, 0x3f7f_ffc0) as u32);
    }
    let (a, b, neg) = zone(k);
    let hi = if b != b { 0x7fff_ffff } else { (b as f32).to_bits() as u64 };
    f32::from_bits(ur(32, (a as f32).to_bits() as u64, hi) as u32 | (neg as u32) << 31)
}
fn z64(k: u64) -> f64 {
    if k == NEAR {
        // 1 - 1e-7 .. 1 - 1e-9
        return f64::from_bits(ur(64, 0x3fef_ffff_ca50_1acb, 0x3fef_ffff_ff76_8fa0));
    }
    let (a, b, neg) = zone(k);
    let hi = if b != b { 0x7fff_ffff_ffff_ffff } else { b.to_bits() };
    f64::from_bits(ur(64, a.to_bits(), hi) | (neg as u64) << 63)
}
macro_rules! same {
    ($a:expr, $b:expr) => {
        check!($a.to_bits() == $b.to_bits() || $a.is_nan() && $b.is_nan())
    };
}
macro_rules! unary {
    ($h:ident $z:ident $sqrt:ident $ln:ident $log:ident $exp:ident $sin:ident $cos:ident $tan:ident $asin:ident $acos:ident $atan:ident) => {
        #[no_mangle]
        pub unsafe extern "C" fn $h() {
            let x = $z(choose(ZONES));
            // the functions have no state: one at a time
            match choose(10) {
                0 => same!($sqrt(x), x.sqrt()),
                1 => same!($ln(x), x.ln()),
                2 => same!($log(x), x.log10()),
                3 => same!($exp(x), x.exp()),
                4 => same!($sin(x), x.sin()),
                5 => same!($cos(x), x.cos()),
                6 => same!($tan(x), x.tan()),
                7 => same!($asin(x), x.asin()),
                8 => same!($acos(x), x.acos()),
                _ => same!($atan(x), x.atan()),
            }
        }
    };
}
unary!(h_c13_dq_real z32 SQRT__REAL LN__REAL LOG__REAL EXP__REAL SIN__REAL COS__REAL TAN__REAL ASIN__REAL ACOS__REAL ATAN__REAL);
unary!(h_c13_dq_lreal z64 SQRT__LREAL LN__LREAL LOG__LREAL EXP__LREAL SIN__LREAL COS__LREAL TAN__LREAL ASIN__LREAL ACOS__LREAL ATAN__LREAL);
unary!(h_c13_rq_real z32 SQRT__REAL LN__REAL LOG__REAL EXP__REAL SIN__REAL COS__REAL TAN__REAL ASIN__REAL ACOS__REAL ATAN__REAL);
unary!(h_c13_rq_lreal z64 SQRT__LREAL LN__LREAL LOG__LREAL EXP__LREAL SIN__LREAL COS__LREAL TAN__LREAL ASIN__LREAL ACOS__LREAL ATAN__LREAL);
#[no_mangle]
pub unsafe extern "C" fn h_c13_dq_atan2() {
    let (i, j) = (choose(ZONES), choose(ZONES));
    if boolv() {
        let (y, x) = (z32(i), z32(j));
        same!(ATAN2__REAL(y, x), y.atan2(x));
    } else {
        let (y, x) = (z64(i), z64(j));
        same!(ATAN2__LREAL(y, x), y.atan2(x));
    }
}
unsafe fn expt(near: bool) {
    let (i, j) = (if near { NEAR } else { choose(ZONES) }, choose(ZONES));
    match choose(4) {
        0 => {
            let (b, e) = (z32(i), z32(j));
            same!(EXPT__REAL__REAL(b, e), b.powf(e));
        }
        1 => {
            let (b, e) = (z64(i), z64(j));
            same!(EXPT__LREAL__LREAL(b, e), b.powf(e));
        }
        2 => {
            let (b, e) = (z32(i), z64(j));
            same!(EXPT__REAL__LREAL(b, e), b.powf(e as f32));
        }
        _ => {
            let (b, e) = (z64(i), z32(j));
            same!(EXPT__LREAL__REAL(b, e), b.powf(e as f64));
        }
    }
}
/// exponents whose precision shows in the result
unsafe fn expt_precise() {
    if boolv() {
        let b = f32::from_bits(ur(32, 0x3f7f_f800, 0x3f7f_fc00) as u32);
        // 1e5..4e5, far from every REAL
        let e = f64::from_bits(ur(35, 0x40f8_6a00_0000_0000 >> 29, 0x4118_6a00_0000_0000 >> 29) << 29 | ur(29, 0x0c00_0000, 0x0fff_ffff));
        same!(EXPT__REAL__LREAL(b, e), b.powf(e as f32));
    } else {
        let b = z64(NEAR);
        let e = f32::from_bits(ur(32, 0x49f4_2400, 0x4cbe_bc20) as u32);
        same!(EXPT__LREAL__REAL(b, e), b.powf(e as f64));
    }
}
unsafe fn expt_dint(near: bool) {
    let e = match choose(5) {
        0 => sr(32, 2, 5),
        1 => sr(32, 6, 0x7fff),
        2 => sr(32, 0x8000, i32::MAX as i64),
        3 => sr(32, i32::MIN as i64, -1),
        _ => sr(32, 0, 1),
    } as i32;
    let z = if near { NEAR } else { choose(ZONES) };
    if boolv() {
        let b = z32(z);
        same!(EXPT__REAL__DINT(b, e), b.powi(e));
    } else {
        let b = z64(z);
        same!(EXPT__LREAL__DINT(b, e), b.powi(e));
    }
}
/// constants: pi and e rounded to nearest, the fractions of pi are exact halves
#[no_mangle]
pub unsafe extern "C" fn h_c13_dq_const() {
    check!(PI_LREAL.to_bits() == 0x4009_21fb_5444_2d18);
    check!(PI_REAL.to_bits() == 0x4049_0fdb);
    check!(FRAC_PI_2_LREAL.to_bits() == 0x3ff9_21fb_5444_2d18);
    check!(FRAC_PI_2_REAL.to_bits() == 0x3fc9_0fdb);
    check!(FRAC_PI_4_LREAL.to_bits() == 0x3fe9_21fb_5444_2d18);
    check!(FRAC_PI_4_REAL.to_bits() == 0x3f49_0fdb);
    check!(E_LREAL.to_bits() == 0x4005_bf0a_8b14_5769);
    check!(E_REAL.to_bits() == 0x402d_f854);
}
macro_rules! h {
    ($($h:ident $e:expr;)*) => { $(#[no_mangle] pub unsafe extern "C" fn $h() { $e })* };
}
h! {
    h_c13_dq_expt expt(false);
    h_c13_dq_expt_near expt(true);
    h_c13_dq_expt_precise expt_precise();
    h_c13_dq_expt_dint expt_dint(false);
    h_c13_dq_expt_dint_near expt_dint(true);
}
