//! ABS, TRUNC and the integer exponents of EXPT, written in ST and translated by stgen.py (module stl). powi is an
//! uninterpreted function of its operands.
use super::stl::*;
use crate::api::*;
const FILE: u32 = 37;
macro_rules! abs {
    ($f:ident $x:expr) => {{
        let x = $x;
        let r = $f(x);
        check!(x == x.wrapping_neg() && x != 0 || r as i128 == if x < 0 { -(x as i128) } else { x as i128 });
    }};
}
unsafe fn abs_int() {
    abs!(ABS__SINT u8v() as i8);
    abs!(ABS__INT u16v() as i16);
    abs!(ABS__DINT u32v() as i32);
    abs!(ABS__LINT u64v() as i64);
}
unsafe fn abs_real() {
    let x = f32v();
    let r = ABS__REAL(x);
    check!(x.is_nan() && r.is_nan() || r.to_bits() == x.to_bits() & 0x7fff_ffff || x == 0.0 && r == 0.0);
    let y = f64v();
    let s = ABS__LREAL(y);
    check!(y.is_nan() && s.is_nan() || s.to_bits() == y.to_bits() & 0x7fff_ffff_ffff_ffff || y == 0.0 && s == 0.0);
}
unsafe fn trunc() {
    let x = f32v();
    check!(!(x > -9223372036854775808.0 && x < 9223372036854775808.0) || TRUNC__REAL(x) == x.trunc() as i64);
    let y = f64v();
    check!(!(y > -9223372036854775808.0 && y < 9223372036854775808.0) || TRUNC__LREAL(y) == y.trunc() as i64);
}
macro_rules! same {
    ($a:expr, $b:expr) => {
        check!($a.to_bits() == $b.to_bits() || $a.is_nan() && $b.is_nan())
    };
}
/// near: bases at which different exponents give different results
unsafe fn expt(near: bool) {
    let (b, c) = if near {
        (f32::from_bits(ur(32, 0x3f7f_f800, 0x3f7f_ffc0) as u32), f64::from_bits(ur(64, 0x3fef_ffff_ca50_1acb, 0x3fef_ffff_ff76_8fa0)))
    } else {
        (f32v(), f64v())
    };
    let real = boolv();
    macro_rules! go {
        ($f:ident $g:ident $e:expr) => {{
            let e = $e;
            if real {
                same!($f(b, e), b.powi(e as i32));
            } else {
                same!($g(c, e), c.powi(e as i32));
            }
        }};
    }
    match choose(8) {
        0 => go!(EXPT__REAL__SINT EXPT__LREAL__SINT u8v() as i8),
        1 => go!(EXPT__REAL__INT EXPT__LREAL__INT u16v() as i16),
        2 => go!(EXPT__REAL__USINT EXPT__LREAL__USINT u8v()),
        3 => go!(EXPT__REAL__UINT EXPT__LREAL__UINT u16v()),
        4 => go!(EXPT__REAL__UDINT EXPT__LREAL__UDINT ur(32, 0, 0x7fff_ffff) as u32),
        5 => go!(EXPT__REAL__ULINT EXPT__LREAL__ULINT ur(64, 0, 0x7fff_ffff)),
        6 => go!(EXPT__REAL__LINT EXPT__LREAL__LINT sr(64, -0x8000_0000, -1)),
        _ => go!(EXPT__REAL__LINT EXPT__LREAL__LINT sr(64, 0, 0x7fff_ffff)),
    }
}
/// exponents above the DINT range: a positive power of zero is zero
macro_rules! big {
    ($($h:ident $f:ident $e:expr;)*) => { $(
        #[no_mangle]
        pub unsafe extern "C" fn $h() {
            let e = $e;
            check!($f(0.0, e) == 0.0);
        }
    )* };
}
big! {
    h_c37_dq_real_udint EXPT__REAL__UDINT ur(32, 0x8000_0000, 0xffff_ffff) as u32;
    h_c37_dq_lreal_udint EXPT__LREAL__UDINT ur(32, 0x8000_0000, 0xffff_ffff) as u32;
    h_c37_dq_real_ulint EXPT__REAL__ULINT ur(32, 1, 0xffff_ffff) << 32;
    h_c37_dq_lreal_ulint EXPT__LREAL__ULINT ur(32, 1, 0xffff_ffff) << 32;
    h_c37_dq_real_lint EXPT__REAL__LINT (ur(32, 1, 0x7fff_ffff) << 32) as i64;
    h_c37_dq_lreal_lint EXPT__LREAL__LINT (ur(32, 1, 0x7fff_ffff) << 32) as i64;
}
macro_rules! h {
    ($($h:ident $e:expr;)*) => { $(#[no_mangle] pub unsafe extern "C" fn $h() { $e })* };
}
h! {
    h_c37_dq_abs_int abs_int();
    h_c37_dq_abs_real abs_real();
    h_c37_dq_trunc trunc();
    h_c37_dq_expt expt(false);
    h_c37_dq_expt_near expt(true);
}
