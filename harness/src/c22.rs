use super::st;
use super::txt::*;
use crate::api::*;
const FILE: u32 = 22;
extern "C" {
    fn BYTE_TO_STRING_EXT(x: u8, d: *mut u8) -> i32;
    fn LWORD_TO_STRING_EXT(x: u64, d: *mut u8) -> i32;
    fn LINT_TO_STRING_EXT(x: i64, d: *mut u8) -> i32;
}
unsafe fn byte() {
    let n = choose(3) as usize + 1;
    let x = if n == 3 { upto(b"255") } else { num(n, (n > 1) as u8) };
    let d = To::new();
    BYTE_TO_STRING_EXT(x.v as u8, d.d);
    check!(d.has(&Text::new().digits(&x.d, n)));
}
unsafe fn lword() {
    let n = choose(20) as usize + 1;
    let x = if n == 20 { upto(b"18446744073709551615") } else { num(n, (n > 1) as u8) };
    let d = To::new();
    LWORD_TO_STRING_EXT(x.v, d.d);
    check!(d.has(&Text::new().digits(&x.d, n)));
}
unsafe fn lint() {
    let n = choose(20) as usize + 1;
    let d = To::new();
    if n == 20 {
        LINT_TO_STRING_EXT(i64::MIN, d.d);
        check!(d.has(&Text::new().s(b"-9223372036854775808")));
        return;
    }
    let neg = choose(2) == 1;
    let x = if n == 19 { upto(b"9223372036854775807") } else { num(n, (n > 1) as u8 | neg as u8) };
    let t = Text::new();
    let t = if neg { t.c(b'-') } else { t };
    LINT_TO_STRING_EXT(if neg { -(x.v as i64) } else { x.v as i64 }, d.d);
    check!(d.has(&t.digits(&x.d, n)));
}
/// calls one after the other
#[no_mangle]
pub unsafe extern "C" fn h_c22_dq_again() {
    match choose(3) {
        0 => {
            byte();
            byte()
        }
        1 => {
            LWORD_TO_STRING_EXT(4711, To::new().d);
            lword()
        }
        _ => {
            LINT_TO_STRING_EXT(-4711, To::new().d);
            lint()
        }
    }
}
#[no_mangle]
pub unsafe extern "C" fn h_c22_dq_byte() {
    byte()
}
#[no_mangle]
pub unsafe extern "C" fn h_c22_dq_lword() {
    lword()
}
#[no_mangle]
pub unsafe extern "C" fn h_c22_dq_lint() {
    lint()
}
#[no_mangle]
pub unsafe extern "C" fn h_c22_rq_byte() {
    byte()
}
#[no_mangle]
pub unsafe extern "C" fn h_c22_rq_lword() {
    lword()
}
#[no_mangle]
pub unsafe extern "C" fn h_c22_rq_lint() {
    lint()
}
