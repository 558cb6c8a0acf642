use super::chr;
use super::tm;
use crate::api::*;
const FILE: u32 = 28;
extern "C" {
    fn ADD_TIME(a: i64, b: i64) -> i64;
    fn ADD_TOD_TIME(a: i64, b: i64) -> i64;
    fn ADD_DT_TIME(a: i64, b: i64) -> i64;
    fn SUB_TIME(a: i64, b: i64) -> i64;
    fn SUB_DATE_DATE(a: i64, b: i64) -> i64;
    fn SUB_TOD_TIME(a: i64, b: i64) -> i64;
    fn SUB_TOD_TOD(a: i64, b: i64) -> i64;
    fn SUB_DT_TIME(a: i64, b: i64) -> i64;
    fn SUB_DT_DT(a: i64, b: i64) -> i64;
}
macro_rules! h {
    ($h:ident, $f:ident, $op:ident) => {
        #[no_mangle]
        pub unsafe extern "C" fn $h() {
            chr::use_contracts();
            let (a, b) = (tm::ns(), tm::ns());
            match a.$op(b) {
                Some(v) => check!($f(a, b) == v),
                None => must_panic!($f(a, b)),
            }
        }
    };
}
h!(h_c28_dq_add_time, ADD_TIME, checked_add);
h!(h_c28_dq_add_tod_time, ADD_TOD_TIME, checked_add);
h!(h_c28_dq_add_dt_time, ADD_DT_TIME, checked_add);
h!(h_c28_dq_sub_time, SUB_TIME, checked_sub);
h!(h_c28_dq_sub_date_date, SUB_DATE_DATE, checked_sub);
h!(h_c28_dq_sub_tod_time, SUB_TOD_TIME, checked_sub);
h!(h_c28_dq_sub_tod_tod, SUB_TOD_TOD, checked_sub);
h!(h_c28_dq_sub_dt_time, SUB_DT_TIME, checked_sub);
h!(h_c28_dq_sub_dt_dt, SUB_DT_DT, checked_sub);
h!(h_c28_rq_add_time, ADD_TIME, checked_add);
h!(h_c28_rq_add_tod_time, ADD_TOD_TIME, checked_add);
h!(h_c28_rq_add_dt_time, ADD_DT_TIME, checked_add);
h!(h_c28_rq_sub_time, SUB_TIME, checked_sub);
h!(h_c28_rq_sub_date_date, SUB_DATE_DATE, checked_sub);
h!(h_c28_rq_sub_tod_time, SUB_TOD_TIME, checked_sub);
h!(h_c28_rq_sub_tod_tod, SUB_TOD_TOD, checked_sub);
h!(h_c28_rq_sub_dt_time, SUB_DT_TIME, checked_sub);
h!(h_c28_rq_sub_dt_dt, SUB_DT_DT, checked_sub);
/// chr.rs against chrono itself. Sums of a 64-bit instant and a 64-bit duration lie in the years 1385 to 2555.
mod contract {
    use super::super::chr;
    use crate::api::*;
    use chrono::{Datelike, NaiveDate, TimeDelta};
    const FILE: u32 = 28;
    const CYCLE: i64 = 146_097;
    pub struct Year {
        y: i64,
        before: i64,
        leap: bool,
        /// chrono's flags of the year
        flags: i32,
    }
    /// years lo..lo+n, one by one
    pub unsafe fn near(lo: i64, n: u64) -> Year {
        let y = lo + choose(n) as i64;
        Year { y, before: chr::before(y), leap: chr::leap(y), flags: chr::flags(y) }
    }
    const REF: [i64; 6] = [1677, 1969, 1970, 2000, 2100, 2262];
    unsafe fn raw(d: Option<NaiveDate>) -> i32 {
        core::mem::transmute::<Option<NaiveDate>, i32>(d)
    }
    unsafe fn date(y: &Year, o: i64) -> NaiveDate {
        core::mem::transmute(rep(y, o))
    }
    /// year, ordinal, flags: NaiveDate's own representation
    fn rep(y: &Year, o: i64) -> i32 {
        ((y.y as i32) << 13) | ((o as i32) << 4) | y.flags
    }
    unsafe fn ordinal(y: &Year) -> i64 {
        ur(64, 1, 365 + y.leap as u64) as i64
    }
    /// a day of the year by month and day of the month: (month, day, ordinal)
    unsafe fn month(y: &Year) -> (u32, u32, i64) {
        let m = choose(12) as u32 + 1;
        let d = ur(32, 1, chr::dim(y.leap, m) as u64) as u32;
        (m, d, chr::cum(y.leap, m) as i64 + d as i64)
    }
    pub unsafe fn fields(y: Year) {
        let o = ordinal(&y);
        let day = y.before + o;
        check!(raw(NaiveDate::from_num_days_from_ce_opt(day as i32)) == rep(&y, o));
        let d = date(&y, o);
        check!(d.num_days_from_ce() as i64 == day);
        check!(d.year() as i64 == y.y);
        check!(d.ordinal() as i64 == o);
        check!(d.weekday() as i64 == (day - 1).rem_euclid(7));
    }
    pub unsafe fn months(y: Year) {
        let (m, d, o) = month(&y);
        let x = date(&y, o);
        check!(x.month() == m);
        check!(x.day() == d);
        check!(raw(NaiveDate::from_ymd_opt(y.y as i32, m, d)) == rep(&y, o));
    }
    pub unsafe fn sums(y: Year, z: Year) {
        let (o, p) = (ordinal(&y), ordinal(&z));
        let k = z.before + p - y.before - o;
        check!(raw(date(&y, o).checked_add_signed(TimeDelta::days(k))) == rep(&z, p));
    }
    /// no such month or day
    pub unsafe fn rejected(y: Year) {
        let (m, d) = (u32v(), u32v());
        let k = choose(3);
        if k == 0 {
            assume(m < 1 || m > 12);
        } else if k == 1 {
            assume(d < 1 || d > 31);
        } else {
            let m1 = choose(12) as u32 + 1;
            assume(m == m1 && d > chr::dim(y.leap, m1) && d <= 31);
        }
        check!(raw(NaiveDate::from_ymd_opt(y.y as i32, m, d)) == 0);
    }
    /// no such year
    pub unsafe fn beyond() {
        let y = i32v();
        assume(y < -262_143 || y > 262_142);
        check!(raw(NaiveDate::from_ymd_opt(y, 1, 1)) == 0);
    }
    pub unsafe fn some() -> Year {
        near(REF[choose(6) as usize], 1)
    }
    pub unsafe fn differences(y: Year) {
        let o = ordinal(&y);
        let z = some();
        let p = ordinal(&z);
        check!(date(&y, o).signed_duration_since(date(&z, p)) == TimeDelta::days(y.before + o - z.before - p));
        check!(date(&z, p).signed_duration_since(date(&y, o)) == TimeDelta::days(z.before + p - y.before - o));
    }
    pub unsafe fn neighbours(y: Year) {
        let o = ordinal(&y);
        let day = y.before + o;
        check!(raw(date(&y, o).succ_opt()) == raw(NaiveDate::from_num_days_from_ce_opt(day as i32 + 1)));
        check!(raw(date(&y, o).pred_opt()) == raw(NaiveDate::from_num_days_from_ce_opt(day as i32 - 1)));
    }
}
#[no_mangle]
pub unsafe extern "C" fn h_c28_dt_chrono_fields() {
    contract::fields(contract::near(1385, 1171));
}
#[no_mangle]
pub unsafe extern "C" fn h_c28_dt_chrono_months_1() {
    contract::months(contract::near(1385, 586));
}
#[no_mangle]
pub unsafe extern "C" fn h_c28_dt_chrono_months_2() {
    contract::months(contract::near(1971, 585));
}
#[no_mangle]
pub unsafe extern "C" fn h_c28_dt_chrono_sums() {
    contract::sums(contract::near(1385, 1171), contract::some());
}
#[no_mangle]
pub unsafe extern "C" fn h_c28_dt_chrono_sums_from() {
    contract::sums(contract::some(), contract::near(1385, 1171));
}
#[no_mangle]
pub unsafe extern "C" fn h_c28_dt_chrono_differences() {
    contract::differences(contract::near(1385, 1171));
}
#[no_mangle]
pub unsafe extern "C" fn h_c28_dt_chrono_neighbours() {
    contract::neighbours(contract::near(1386, 1169));
}
#[no_mangle]
pub unsafe extern "C" fn h_c28_dt_chrono_rejected() {
    contract::rejected(contract::near(1900, 400));
}
#[no_mangle]
pub unsafe extern "C" fn h_c28_dt_chrono_beyond() {
    contract::beyond();
}
