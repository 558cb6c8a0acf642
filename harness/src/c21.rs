use crate::api::*;
const FILE: u32 = 21;
extern "C" {
    fn CHAR_TO_WCHAR(c: u8) -> u16;
    fn WCHAR_TO_CHAR(c: u16) -> u8;
}
#[no_mangle]
pub unsafe extern "C" fn h_c21_dq_char() {
    let c = u8v();
    check!(CHAR_TO_WCHAR(c) == c as u16);
}
#[no_mangle]
pub unsafe extern "C" fn h_c21_dq_wchar() {
    let w = u16v();
    let c = WCHAR_TO_CHAR(w);
    check!(if w < 0x80 { c as u16 == w } else { c >= 0x80 });
}
#[no_mangle]
pub unsafe extern "C" fn h_c21_dq_back() {
    let c = u8v();
    assume(c < 0x80);
    check!(WCHAR_TO_CHAR(CHAR_TO_WCHAR(c)) == c);
}
#[no_mangle]
pub unsafe extern "C" fn h_c21_rq_both() {
    let w = u16v();
    let c = WCHAR_TO_CHAR(w);
    check!(if w < 0x80 { c as u16 == w } else { c >= 0x80 });
    let c = u8v();
    check!(CHAR_TO_WCHAR(c) == c as u16);
}
