use crate::api::*;
extern "C" {
    fn SHL__BYTE(x: u8, n: u32) -> u8;
    fn SHL__WORD(x: u16, n: u32) -> u16;
    fn SHL__DWORD(x: u32, n: u32) -> u32;
    fn SHL__LWORD(x: u64, n: u32) -> u64;
    fn SHR__BYTE(x: u8, n: u32) -> u8;
    fn SHR__WORD(x: u16, n: u32) -> u16;
    fn SHR__DWORD(x: u32, n: u32) -> u32;
    fn SHR__LWORD(x: u64, n: u32) -> u64;
    fn ROL__BYTE(x: u8, n: u32) -> u8;
    fn ROL__WORD(x: u16, n: u32) -> u16;
    fn ROL__DWORD(x: u32, n: u32) -> u32;
    fn ROL__LWORD(x: u64, n: u32) -> u64;
    fn ROR__BYTE(x: u8, n: u32) -> u8;
    fn ROR__WORD(x: u16, n: u32) -> u16;
    fn ROR__DWORD(x: u32, n: u32) -> u32;
    fn ROR__LWORD(x: u64, n: u32) -> u64;
}
const FILE: u32 = 7;

macro_rules! shifts {
    ($h:ident, $shl:ident, $shr:ident, $rol:ident, $ror:ident, $t:ty) => {
        #[no_mangle]
        pub unsafe extern "C" fn $h() {
            let w = <$t>::BITS;
            let x = <$t>::any();
            let n = u32v();
            let k = u32v();
            assume(k < w);
            let bit = |v: $t, i: u32| (v >> i) & 1;
            match choose(4) {
                0 => {
                    let r = $shl(x, n);
                    // bit k of the result is bit k - n of the operand, or 0
                    if n <= k {
                        check!(bit(r, k) == bit(x, k - n));
                    } else {
                        check!(bit(r, k) == 0);
                    }
                }
                1 => {
                    let r = $shr(x, n);
                    if n < w && k < w - n {
                        check!(bit(r, k) == bit(x, k + n));
                    } else {
                        check!(bit(r, k) == 0);
                    }
                }
                2 => {
                    let r = $rol(x, n);
                    check!(bit(r, (k + n % w) % w) == bit(x, k));
                    check!($ror(r, n) == x);
                }
                _ => {
                    let r = $ror(x, n);
                    check!(bit(r, (k + (w - n % w)) % w) == bit(x, k));
                    check!($rol(r, n) == x);
                }
            }
        }
    };
}
shifts!(h_c07_dq_byte, SHL__BYTE, SHR__BYTE, ROL__BYTE, ROR__BYTE, u8);
shifts!(h_c07_dq_word, SHL__WORD, SHR__WORD, ROL__WORD, ROR__WORD, u16);
shifts!(h_c07_dq_dword, SHL__DWORD, SHR__DWORD, ROL__DWORD, ROR__DWORD, u32);
shifts!(h_c07_dq_lword, SHL__LWORD, SHR__LWORD, ROL__LWORD, ROR__LWORD, u64);
shifts!(h_c07_rq_byte, SHL__BYTE, SHR__BYTE, ROL__BYTE, ROR__BYTE, u8);
shifts!(h_c07_rq_word, SHL__WORD, SHR__WORD, ROL__WORD, ROR__WORD, u16);
shifts!(h_c07_rq_dword, SHL__DWORD, SHR__DWORD, ROL__DWORD, ROR__DWORD, u32);
shifts!(h_c07_rq_lword, SHL__LWORD, SHR__LWORD, ROL__LWORD, ROR__LWORD, u64);
