use crate::api::*;
const FILE: u32 = 8;
macro_rules! endian {
    ($h:ident, $r:ident, $t:ty, $u:ty, $tb:ident, $tl:ident, $fb:ident, $fl:ident) => {
        extern "C" {
            fn $tb(x: $t) -> $t;
            fn $tl(x: $t) -> $t;
            fn $fb(x: $t) -> $t;
            fn $fl(x: $t) -> $t;
        }
        unsafe fn $r() {
            let x = <$t>::any();
            let b = x.to_le_bytes();
            let k = choose(b.len() as u64) as usize;
            let n = b.len() - 1;
            // byte k of the result is byte n - k of the operand
            check!($tb(x).to_le_bytes()[k] == b[n - k]);
            check!($fl(x).to_le_bytes()[k] == b[n - k]);
            check!($tl(x).to_le_bytes()[k] == b[k]);
            check!($fb(x).to_le_bytes()[k] == b[k]);
            check!($tb($tb(x)).to_le_bytes() == b);
            check!($tl($tl(x)).to_le_bytes() == b);
            check!($fb($tb(x)).to_le_bytes() == $tb(x).to_le_bytes());
            check!($fl($fl(x)).to_le_bytes() == b);
            check!($fb($fb(x)).to_le_bytes() == b);
        }
        #[no_mangle]
        pub unsafe extern "C" fn $h() {
            $r()
        }
    };
}
macro_rules! realendian {
    ($h:ident, $r:ident, $t:ty, $u:ty, $tb:ident, $tl:ident, $fb:ident, $fl:ident) => {
        extern "C" {
            fn $tb(x: $t) -> $t;
            fn $tl(x: $t) -> $t;
            fn $fb(x: $t) -> $t;
            fn $fl(x: $t) -> $t;
        }
        unsafe fn $r(swap: bool) {
            let b = <$u>::any();
            let x = <$t>::from_bits(b);
            if swap {
                match choose(2) {
                    0 => check!($tb(x).to_bits() == b.swap_bytes()),
                    _ => check!($fl(x).to_bits() == b.swap_bytes()),
                }
                return;
            }
            match choose(3) {
                0 => {
                    check!($tl(x).to_bits() == b);
                    check!($fb(x).to_bits() == b);
                }
                1 => {
                    // known finding: these two are the identity (see the harness ending in _swap)
                    let (p, q) = ($tb(x).to_bits(), $fl(x).to_bits());
                    check!(p == b || p == b.swap_bytes());
                    check!(q == p);
                }
                _ => {
                    check!($tb($tb(x)).to_bits() == b);
                    check!($fl($fl(x)).to_bits() == b);
                    check!($tl($tl(x)).to_bits() == b);
                    check!($fb($fb(x)).to_bits() == b);
                }
            }
        }
        #[no_mangle]
        pub unsafe extern "C" fn $h() {
            $r(false)
        }
    };
}
#[no_mangle]
pub unsafe extern "C" fn h_c08_dq_real_swap() {
    run_real(true)
}
#[no_mangle]
pub unsafe extern "C" fn h_c08_dq_lreal_swap() {
    run_lreal(true)
}
endian!(h_c08_dq_int, run_int, i16, u8, TO_BIG_ENDIAN__INT, TO_LITTLE_ENDIAN__INT, FROM_BIG_ENDIAN__INT, FROM_LITTLE_ENDIAN__INT);
endian!(h_c08_dq_dint, run_dint, i32, u8, TO_BIG_ENDIAN__DINT, TO_LITTLE_ENDIAN__DINT, FROM_BIG_ENDIAN__DINT, FROM_LITTLE_ENDIAN__DINT);
endian!(h_c08_dq_lint, run_lint, i64, u8, TO_BIG_ENDIAN__LINT, TO_LITTLE_ENDIAN__LINT, FROM_BIG_ENDIAN__LINT, FROM_LITTLE_ENDIAN__LINT);
endian!(h_c08_dq_uint, run_uint, u16, u8, TO_BIG_ENDIAN__UINT, TO_LITTLE_ENDIAN__UINT, FROM_BIG_ENDIAN__UINT, FROM_LITTLE_ENDIAN__UINT);
endian!(h_c08_dq_udint, run_udint, u32, u8, TO_BIG_ENDIAN__UDINT, TO_LITTLE_ENDIAN__UDINT, FROM_BIG_ENDIAN__UDINT, FROM_LITTLE_ENDIAN__UDINT);
endian!(h_c08_dq_ulint, run_ulint, u64, u8, TO_BIG_ENDIAN__ULINT, TO_LITTLE_ENDIAN__ULINT, FROM_BIG_ENDIAN__ULINT, FROM_LITTLE_ENDIAN__ULINT);
endian!(h_c08_dq_word, run_word, u16, u8, TO_BIG_ENDIAN__WORD, TO_LITTLE_ENDIAN__WORD, FROM_BIG_ENDIAN__WORD, FROM_LITTLE_ENDIAN__WORD);
endian!(h_c08_dq_dword, run_dword, u32, u8, TO_BIG_ENDIAN__DWORD, TO_LITTLE_ENDIAN__DWORD, FROM_BIG_ENDIAN__DWORD, FROM_LITTLE_ENDIAN__DWORD);
endian!(h_c08_dq_lword, run_lword, u64, u8, TO_BIG_ENDIAN__LWORD, TO_LITTLE_ENDIAN__LWORD, FROM_BIG_ENDIAN__LWORD, FROM_LITTLE_ENDIAN__LWORD);
endian!(h_c08_dq_wchar, run_wchar, u16, u8, TO_BIG_ENDIAN__WCHAR, TO_LITTLE_ENDIAN__WCHAR, FROM_BIG_ENDIAN__WCHAR, FROM_LITTLE_ENDIAN__WCHAR);
endian!(h_c08_dq_date, run_date, i64, u8, TO_BIG_ENDIAN__DATE, TO_LITTLE_ENDIAN__DATE, FROM_BIG_ENDIAN__DATE, FROM_LITTLE_ENDIAN__DATE);
endian!(h_c08_dq_time_of_day, run_time_of_day, i64, u8, TO_BIG_ENDIAN__TIME_OF_DAY, TO_LITTLE_ENDIAN__TIME_OF_DAY, FROM_BIG_ENDIAN__TIME_OF_DAY, FROM_LITTLE_ENDIAN__TIME_OF_DAY);
endian!(h_c08_dq_date_and_time, run_date_and_time, i64, u8, TO_BIG_ENDIAN__DATE_AND_TIME, TO_LITTLE_ENDIAN__DATE_AND_TIME, FROM_BIG_ENDIAN__DATE_AND_TIME, FROM_LITTLE_ENDIAN__DATE_AND_TIME);
realendian!(h_c08_dq_real, run_real, f32, u32, TO_BIG_ENDIAN__REAL, TO_LITTLE_ENDIAN__REAL, FROM_BIG_ENDIAN__REAL, FROM_LITTLE_ENDIAN__REAL);
realendian!(h_c08_dq_lreal, run_lreal, f64, u64, TO_BIG_ENDIAN__LREAL, TO_LITTLE_ENDIAN__LREAL, FROM_BIG_ENDIAN__LREAL, FROM_LITTLE_ENDIAN__LREAL);
#[no_mangle]
pub unsafe extern "C" fn h_c08_rt_all() {
    match choose(5) {
        0 => run_int(),
        1 => run_udint(),
        2 => run_date(),
        3 => run_real(false),
        _ => run_lreal(false),
    }
}
