use crate::api::*;
const FILE: u32 = 11;
extern "C" {
    fn IS_VALID__REAL(x: f32) -> bool;
    fn IS_VALID__LREAL(x: f64) -> bool;
    fn IS_VALID_BCD__BYTE(x: u8) -> bool;
    fn IS_VALID_BCD__WORD(x: u16) -> bool;
    fn IS_VALID_BCD__DWORD(x: u32) -> bool;
    fn IS_VALID_BCD__LWORD(x: u64) -> bool;
}
unsafe fn float() {
    let b = u32v();
    check!(IS_VALID__REAL(f32::from_bits(b)) == ((b >> 23) & 0xff != 0xff));
    let b = u64v();
    check!(IS_VALID__LREAL(f64::from_bits(b)) == ((b >> 52) & 0x7ff != 0x7ff));
}
macro_rules! bcd {
    ($h:ident, $f:ident, $t:ty) => {
        unsafe fn $h() {
            let x = <$t>::any();
            let mut ok = true;
            let mut i = 0;
            while i < <$t>::BITS {
                ok &= (x >> i) & 15 <= 9;
                i += 4;
            }
            check!($f(x) == ok);
        }
    };
}
bcd!(byte, IS_VALID_BCD__BYTE, u8);
bcd!(word, IS_VALID_BCD__WORD, u16);
bcd!(dword, IS_VALID_BCD__DWORD, u32);
bcd!(lword, IS_VALID_BCD__LWORD, u64);
#[no_mangle]
pub unsafe extern "C" fn h_c11_dq_valid() {
    float()
}
#[no_mangle]
pub unsafe extern "C" fn h_c11_dq_byte() {
    byte()
}
#[no_mangle]
pub unsafe extern "C" fn h_c11_dq_word() {
    word()
}
#[no_mangle]
pub unsafe extern "C" fn h_c11_dq_dword() {
    dword()
}
#[no_mangle]
pub unsafe extern "C" fn h_c11_dq_lword() {
    lword()
}
#[no_mangle]
pub unsafe extern "C" fn h_c11_rq_all() {
    float();
    byte();
    word();
    dword();
    lword();
}
