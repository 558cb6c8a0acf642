use crate::api::*;
const FILE: u32 = 29;
macro_rules! fns {
    ($($m:ident: $p:ident $d:ident $t:ty;)*) => {
        mod lib {
            extern "C" { $(pub fn $p(a: i64, b: $t) -> i64; pub fn $d(a: i64, b: $t) -> i64;)* }
        }
        pub mod fs {
            use crate::api::*;
            const FILE: u32 = 29;
            $(
                /// multiplication and division by one integer type
                pub unsafe fn $m(div: bool) {
                    let a = i64v();
                    let b = <$t as Any>::any();
                    let f = b as i128;
                    // a factor or divisor above the 64-bit range counts as out of range
                    if f > i64::MAX as i128 {
                        must_panic!(if div { super::lib::$d(a, b) } else { super::lib::$p(a, b) });
                        return;
                    }
                    let g = f as i64;
                    let want = if div { a.checked_div(g) } else { a.checked_mul(g) };
                    match want {
                        Some(v) => check!((if div { super::lib::$d(a, b) } else { super::lib::$p(a, b) }) == v),
                        None => must_panic!(if div { super::lib::$d(a, b) } else { super::lib::$p(a, b) }),
                    }
                }
            )*
        }
    };
}
fns! {
    a_sint: MUL__TIME__SINT DIV__TIME__SINT i8;
    a_int: MUL__TIME__INT DIV__TIME__INT i16;
    a_dint: MUL__TIME__DINT DIV__TIME__DINT i32;
    a_lint: MUL__TIME__LINT DIV__TIME__LINT i64;
    a_usint: MUL__TIME__USINT DIV__TIME__USINT u8;
    a_uint: MUL__TIME__UINT DIV__TIME__UINT u16;
    a_udint: MUL__TIME__UDINT DIV__TIME__UDINT u32;
    a_ulint: MUL__TIME__ULINT DIV__TIME__ULINT u64;
    b_sint: MUL_TIME__SINT DIV_TIME__SINT i8;
    b_int: MUL_TIME__INT DIV_TIME__INT i16;
    b_dint: MUL_TIME__DINT DIV_TIME__DINT i32;
    b_lint: MUL_TIME__LINT DIV_TIME__LINT i64;
    b_usint: MUL_TIME__USINT DIV_TIME__USINT u8;
    b_uint: MUL_TIME__UINT DIV_TIME__UINT u16;
    b_udint: MUL_TIME__UDINT DIV_TIME__UDINT u32;
    b_ulint: MUL_TIME__ULINT DIV_TIME__ULINT u64;
    c_sint: MUL_LTIME__SINT DIV_LTIME__SINT i8;
    c_int: MUL_LTIME__INT DIV_LTIME__INT i16;
    c_dint: MUL_LTIME__DINT DIV_LTIME__DINT i32;
    c_lint: MUL_LTIME__LINT DIV_LTIME__LINT i64;
    c_usint: MUL_LTIME__USINT DIV_LTIME__USINT u8;
    c_uint: MUL_LTIME__UINT DIV_LTIME__UINT u16;
    c_udint: MUL_LTIME__UDINT DIV_LTIME__UDINT u32;
    c_ulint: MUL_LTIME__ULINT DIV_LTIME__ULINT u64;
}
macro_rules! h {
    ($($h:ident $a:ident $b:ident $c:ident $div:expr;)*) => { $(#[no_mangle] pub unsafe extern "C" fn $h() {
        match choose(3) {
            0 => fs::$a($div),
            1 => fs::$b($div),
            _ => fs::$c($div),
        }
    })* };
}
h! {
    h_c29_dq_mul_sint a_sint b_sint c_sint false;
    h_c29_dq_mul_int a_int b_int c_int false;
    h_c29_dq_mul_dint a_dint b_dint c_dint false;
    h_c29_dq_mul_lint a_lint b_lint c_lint false;
    h_c29_dq_mul_usint a_usint b_usint c_usint false;
    h_c29_dq_mul_uint a_uint b_uint c_uint false;
    h_c29_dq_mul_udint a_udint b_udint c_udint false;
    h_c29_dq_mul_ulint a_ulint b_ulint c_ulint false;
    h_c29_dq_div_sint a_sint b_sint c_sint true;
    h_c29_dq_div_int a_int b_int c_int true;
    h_c29_dq_div_dint a_dint b_dint c_dint true;
    h_c29_dq_div_lint a_lint b_lint c_lint true;
    h_c29_dq_div_usint a_usint b_usint c_usint true;
    h_c29_dq_div_uint a_uint b_uint c_uint true;
    h_c29_dq_div_udint a_udint b_udint c_udint true;
    h_c29_dq_div_ulint a_ulint b_ulint c_ulint true;
    h_c29_rq_mul_sint a_sint b_sint c_sint false;
    h_c29_rq_mul_int a_int b_int c_int false;
    h_c29_rq_mul_dint a_dint b_dint c_dint false;
    h_c29_rq_mul_lint a_lint b_lint c_lint false;
    h_c29_rq_mul_usint a_usint b_usint c_usint false;
    h_c29_rq_mul_uint a_uint b_uint c_uint false;
    h_c29_rq_mul_udint a_udint b_udint c_udint false;
    h_c29_rq_mul_ulint a_ulint b_ulint c_ulint false;
    h_c29_rq_div_sint a_sint b_sint c_sint true;
    h_c29_rq_div_int a_int b_int c_int true;
    h_c29_rq_div_dint a_dint b_dint c_dint true;
    h_c29_rq_div_lint a_lint b_lint c_lint true;
    h_c29_rq_div_usint a_usint b_usint c_usint true;
    h_c29_rq_div_uint a_uint b_uint c_uint true;
    h_c29_rq_div_udint a_udint b_udint c_udint true;
    h_c29_rq_div_ulint a_ulint b_ulint c_ulint true;
}
