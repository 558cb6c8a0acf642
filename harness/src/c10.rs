use crate::api::*;
const FILE: u32 = 10;
macro_rules! common {
    ($t:ty, $max:ident, $min:ident, $lim:ident) => {
        extern "C" {
            fn $max(n: u32, v: *const $t) -> $t;
            fn $min(n: u32, v: *const $t) -> $t;
            fn $lim(mn: $t, x: $t, mx: $t) -> $t;
        }
    };
}
/// long lists: n operands, all the same but for the one at position d
pub unsafe fn many() -> (usize, usize) {
    let n = [5, 8, 9, 16, 17, 33, 64, 65, 100, 129, 257][choose(11) as usize];
    let d = [0, 1, n / 2, n - 2, n - 1][choose(5) as usize];
    (n, d)
}
macro_rules! list {
    ($n:expr, $d:expr, $x:expr, $y:expr) => {{
        let v = buf($n * std::mem::size_of_val(&$x));
        let mut v = v as *mut _;
        let first = v;
        let mut i = 0;
        while i < $n {
            *v = if i == $d { $y } else { $x };
            v = v.add(1);
            i += 1;
        }
        first
    }};
}
macro_rules! order {
    ($h:ident, $run:ident, $t:ty, $max:ident, $min:ident, $lim:ident, $n:expr) => {
        common!($t, $max, $min, $lim);
        unsafe fn $run(limit: u64) {
            match choose(5) {
                k if k > 2 => {
                    let (n, d) = many();
                    let (x, y) = (<$t>::any(), <$t>::any());
                    let v: *const $t = list!(n, d, x, y);
                    let r = if k == 3 { $max(n as u32, v) } else { $min(n as u32, v) };
                    check!(r == if (k == 3) == (x < y) { y } else { x });
                }
                2 => {
                    let (a, x, b) = (<$t>::any(), <$t>::any(), <$t>::any());
                    let r = $lim(a, x, b);
                    check!(r == if x < a { a } else if x > b { b } else { x });
                }
                k => {
                    let n = 1 + choose(limit) as usize;
                    // exactly n operands in memory
                    let v = buf(n * std::mem::size_of::<$t>()) as *mut $t;
                    let mut i = 0;
                    while i < n {
                        v.add(i).write_unaligned(<$t>::any());
                        i += 1;
                    }
                    let old = [v.read_unaligned(), v.add(n - 1).read_unaligned(), v.add(n / 2).read_unaligned()];
                    let r = if k == 0 { $max(n as u32, v) } else { $min(n as u32, v) };
                    let mut member = false;
                    let mut best = true;
                    let mut i = 0;
                    while i < n {
                        let e = v.add(i).read_unaligned();
                        member |= r == e;
                        best &= if k == 0 { e <= r } else { e >= r };
                        i += 1;
                    }
                    check!(member);
                    check!(best);
                    check!(old == [v.read_unaligned(), v.add(n - 1).read_unaligned(), v.add(n / 2).read_unaligned()]);
                }
            }
        }
        #[no_mangle]
        pub unsafe extern "C" fn $h() {
            $run($n)
        }
    };
}
macro_rules! float {
    ($h:ident, $run:ident, $t:ty, $max:ident, $min:ident, $lim:ident, $n:expr) => {
        common!($t, $max, $min, $lim);
        unsafe fn $run(limit: u64) {
            match choose(5) {
                k if k > 2 => {
                    let (n, d) = many();
                    // every operand behind d becomes part of a nested term
                    assume(n - d <= 17);
                    let (x, y) = ([1.5, <$t>::NAN][choose(2) as usize], <$t>::any());
                    let v: *const $t = list!(n, d, x, y);
                    let r = if k == 3 { $max(n as u32, v) } else { $min(n as u32, v) };
                    let want = if x.is_nan() || (k == 3) == (x < y) && !y.is_nan() { y } else { x };
                    check!(r == want || r.is_nan() && want.is_nan());
                }
                2 => {
                    let (a, x, b) = (<$t>::any(), <$t>::any(), <$t>::any());
                    let r = $lim(a, x, b);
                    let want = if x < a { a } else if x > b { b } else { x };
                    check!(r == want || (r.is_nan() && want.is_nan()));
                }
                k => {
                    let n = 1 + choose(limit) as usize;
                    let v = buf(n * std::mem::size_of::<$t>()) as *mut $t;
                    let mut i = 0;
                    while i < n {
                        v.add(i).write_unaligned(<$t>::any());
                        i += 1;
                    }
                    let r = if k == 0 { $max(n as u32, v) } else { $min(n as u32, v) };
                    let mut member = false;
                    let mut best = true;
                    let mut nan = true;
                    let mut i = 0;
                    while i < n {
                        let e = v.add(i).read_unaligned();
                        member |= r == e;
                        best &= e.is_nan() || if k == 0 { e <= r } else { e >= r };
                        nan &= e.is_nan();
                        i += 1;
                    }
                    check!(if nan { r.is_nan() } else { member && best });
                }
            }
        }
        #[no_mangle]
        pub unsafe extern "C" fn $h() {
            $run($n)
        }
    };
}
order!(h_c10_dq_bool, run_bool, u8, MAX__BOOL, MIN__BOOL, LIMIT__BOOL, 4);
#[no_mangle]
pub unsafe extern "C" fn h_c10_dt_bool() {
    run_bool(6)
}
order!(h_c10_dq_byte, run_byte, u8, MAX__BYTE, MIN__BYTE, LIMIT__BYTE, 4);
#[no_mangle]
pub unsafe extern "C" fn h_c10_dt_byte() {
    run_byte(6)
}
order!(h_c10_dq_char, run_char, u8, MAX__CHAR, MIN__CHAR, LIMIT__CHAR, 4);
#[no_mangle]
pub unsafe extern "C" fn h_c10_dt_char() {
    run_char(6)
}
order!(h_c10_dq_word, run_word, u16, MAX__WORD, MIN__WORD, LIMIT__WORD, 4);
#[no_mangle]
pub unsafe extern "C" fn h_c10_dt_word() {
    run_word(6)
}
order!(h_c10_dq_wchar, run_wchar, u16, MAX__WCHAR, MIN__WCHAR, LIMIT__WCHAR, 4);
#[no_mangle]
pub unsafe extern "C" fn h_c10_dt_wchar() {
    run_wchar(6)
}
order!(h_c10_dq_dword, run_dword, u32, MAX__DWORD, MIN__DWORD, LIMIT__DWORD, 4);
#[no_mangle]
pub unsafe extern "C" fn h_c10_dt_dword() {
    run_dword(6)
}
order!(h_c10_dq_lword, run_lword, u64, MAX__LWORD, MIN__LWORD, LIMIT__LWORD, 4);
#[no_mangle]
pub unsafe extern "C" fn h_c10_dt_lword() {
    run_lword(6)
}
order!(h_c10_dq_sint, run_sint, i8, MAX__SINT, MIN__SINT, LIMIT__SINT, 4);
#[no_mangle]
pub unsafe extern "C" fn h_c10_dt_sint() {
    run_sint(6)
}
order!(h_c10_dq_usint, run_usint, u8, MAX__USINT, MIN__USINT, LIMIT__USINT, 4);
#[no_mangle]
pub unsafe extern "C" fn h_c10_dt_usint() {
    run_usint(6)
}
order!(h_c10_dq_int, run_int, i16, MAX__INT, MIN__INT, LIMIT__INT, 4);
#[no_mangle]
pub unsafe extern "C" fn h_c10_dt_int() {
    run_int(6)
}
order!(h_c10_dq_uint, run_uint, u16, MAX__UINT, MIN__UINT, LIMIT__UINT, 4);
#[no_mangle]
pub unsafe extern "C" fn h_c10_dt_uint() {
    run_uint(6)
}
order!(h_c10_dq_dint, run_dint, i32, MAX__DINT, MIN__DINT, LIMIT__DINT, 4);
#[no_mangle]
pub unsafe extern "C" fn h_c10_dt_dint() {
    run_dint(6)
}
order!(h_c10_dq_udint, run_udint, u32, MAX__UDINT, MIN__UDINT, LIMIT__UDINT, 4);
#[no_mangle]
pub unsafe extern "C" fn h_c10_dt_udint() {
    run_udint(6)
}
order!(h_c10_dq_lint, run_lint, i64, MAX__LINT, MIN__LINT, LIMIT__LINT, 4);
#[no_mangle]
pub unsafe extern "C" fn h_c10_dt_lint() {
    run_lint(6)
}
order!(h_c10_dq_ulint, run_ulint, u64, MAX__ULINT, MIN__ULINT, LIMIT__ULINT, 4);
#[no_mangle]
pub unsafe extern "C" fn h_c10_dt_ulint() {
    run_ulint(6)
}
order!(h_c10_dq_date, run_date, i64, MAX__DATE, MIN__DATE, LIMIT__DATE, 4);
#[no_mangle]
pub unsafe extern "C" fn h_c10_dt_date() {
    run_date(6)
}
order!(h_c10_dq_date_and_time, run_date_and_time, i64, MAX__DATE_AND_TIME, MIN__DATE_AND_TIME, LIMIT__DATE_AND_TIME, 4);
#[no_mangle]
pub unsafe extern "C" fn h_c10_dt_date_and_time() {
    run_date_and_time(6)
}
order!(h_c10_dq_time, run_time, i64, MAX__TIME, MIN__TIME, LIMIT__TIME, 4);
#[no_mangle]
pub unsafe extern "C" fn h_c10_dt_time() {
    run_time(6)
}
order!(h_c10_dq_time_of_day, run_time_of_day, i64, MAX__TIME_OF_DAY, MIN__TIME_OF_DAY, LIMIT__TIME_OF_DAY, 4);
#[no_mangle]
pub unsafe extern "C" fn h_c10_dt_time_of_day() {
    run_time_of_day(6)
}
float!(h_c10_dq_real, run_real, f32, MAX__REAL, MIN__REAL, LIMIT__REAL, 3);
#[no_mangle]
pub unsafe extern "C" fn h_c10_dt_real() {
    run_real(4)
}
float!(h_c10_dq_lreal, run_lreal, f64, MAX__LREAL, MIN__LREAL, LIMIT__LREAL, 3);
#[no_mangle]
pub unsafe extern "C" fn h_c10_dt_lreal() {
    run_lreal(4)
}
#[no_mangle]
pub unsafe extern "C" fn h_c10_rt_some() {
    match choose(4) {
        0 => run_sint(3),
        1 => run_udint(3),
        2 => run_lint(3),
        _ => run_lreal(2),
    }
}
