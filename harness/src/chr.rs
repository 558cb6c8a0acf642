//! Contracts for chrono's NaiveDate. Under `sym_stubs()` a NaiveDate is represented by its day number
//! (day 1 = 0001-01-01), so that sums and differences of dates stay linear; code that looks at the packed
//! year/ordinal/flags gets them by case split over the year. Checked against chrono itself in c28 (thorough).
use crate::api::*;
/// day number of the last day before year y
pub fn before(y: i64) -> i64 {
    let p = y - 1;
    365 * p + p.div_euclid(4) - p.div_euclid(100) + p.div_euclid(400)
}
pub fn leap(y: i64) -> bool {
    y.rem_euclid(4) == 0 && (y.rem_euclid(100) != 0 || y.rem_euclid(400) == 0)
}
const MIN_YEAR: i64 = -262143;
const MAX_YEAR: i64 = 262142;
/// low three bits 000: no flags value of a real NaiveDate
fn enc(day: i32) -> i32 {
    day * 16 + 8
}
fn is_enc(x: i32) -> bool {
    x & 7 == 0
}
fn dec(x: i32) -> i32 {
    if is_enc(x) {
        (x - 8) >> 4
    } else {
        before((x >> 13) as i64) as i32 + ((x >> 4) & 0x1ff)
    }
}
fn in_range(day: i64) -> bool {
    before(MIN_YEAR) < day && day <= before(MAX_YEAR + 1)
}
/// chrono's flags: bit 3 set for common years, low bits: weekday of the year's first day
pub fn flags(y: i64) -> i32 {
    // weekday of January 1st, Monday = 0
    let wd = before(y).rem_euclid(7);
    // weekday = (ordinal + flags) mod 7
    let low = match (wd - 1).rem_euclid(7) {
        0 => 7,
        k => k,
    };
    (low as i32) | if leap(y) { 0 } else { 8 }
}
#[export_name = "stub$chrono$naive$date$NaiveDate$from_num_days_from_ce_opt"]
extern "C" fn s_from_days(day: i32) -> i32 {
    if in_range(day as i64) {
        enc(day)
    } else {
        0
    }
}
#[export_name = "stub$chrono$naive$date$NaiveDate$num_days_from_ce"]
unsafe extern "C" fn s_days(x: *const i32) -> i32 {
    dec(*x)
}
#[export_name = "stub$chrono$naive$date$NaiveDate$add_days"]
extern "C" fn s_add_days(x: i32, k: i32) -> i32 {
    let d = dec(x) as i64 + k as i64;
    if in_range(d) {
        enc(d as i32)
    } else {
        0
    }
}
#[export_name = "stub$chrono$naive$date$NaiveDate$signed_duration_since"]
extern "Rust" fn s_since(x: i32, y: i32) -> (i64, i32) {
    ((dec(x) as i64 - dec(y) as i64) * 86400, 0)
}
#[export_name = "stub$chrono$naive$date$NaiveDate$yof"]
unsafe extern "C" fn s_yof(x: *const i32) -> i32 {
    let x = *x;
    if !is_enc(x) {
        return x;
    }
    let day = dec(x) as i64;
    let (mut lo, mut hi) = if before(1000) < day && day <= before(3001) { (1000, 3000) } else { (MIN_YEAR, MAX_YEAR) };
    while lo < hi {
        let mid = (lo + hi + 1).div_euclid(2);
        if day > before(mid) {
            lo = mid;
        } else {
            hi = mid - 1;
        }
    }
    let o = (day - before(lo)) as i32;
    ((lo as i32) << 13) | (o << 4) | flags(lo)
}
/// a day whose year, month and day of the month the harness knows
#[derive(Clone, Copy)]
struct Known {
    day: i64,
    y: i64,
    m: u32,
    d: u32,
}
static mut KNOWN: Option<Known> = None;
/// 1 <= m <= 12, 1 <= d <= dim(y, m); returns the day number
pub unsafe fn know(before_y: i64, leap: bool, y: i64, m: u32, d: u32) -> i64 {
    let day = before_y + cum(leap, m) as i64 + d as i64;
    KNOWN = Some(Known { day, y, m, d });
    day
}
const CUM: [[u16; 13]; 2] = [[0, 31, 59, 90, 120, 151, 181, 212, 243, 273, 304, 334, 365], [0, 31, 60, 91, 121, 152, 182, 213, 244, 274, 305, 335, 366]];
const DIM: [[u8; 13]; 2] = [[0, 31, 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31], [0, 31, 29, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31]];
/// days of the year before month m
pub fn cum(leap: bool, m: u32) -> u16 {
    if leap {
        CUM[1][m as usize - 1]
    } else {
        CUM[0][m as usize - 1]
    }
}
pub fn dim(leap: bool, m: u32) -> u32 {
    (if leap { DIM[1][m as usize] } else { DIM[0][m as usize] }) as u32
}
unsafe fn known(x: i32) -> Option<Known> {
    match KNOWN {
        Some(k) if is_enc(x) && dec(x) as i64 == k.day => Some(k),
        _ => None,
    }
}
unsafe fn ordinal(x: i32) -> u32 {
    (s_yof(&x) as u32 >> 4) & 0x1ff
}
#[export_name = "stub$chrono$naive$date$NaiveDate$year"]
unsafe extern "C" fn s_year(x: *const i32) -> i32 {
    match known(*x) {
        Some(k) => k.y as i32,
        None => s_yof(x) >> 13,
    }
}
#[export_name = "stub$chrono$naive$date$NaiveDate$ordinal"]
unsafe extern "C" fn s_ordinal(x: *const i32) -> u32 {
    match known(*x) {
        Some(k) => cum(leap(k.y), k.m) as u32 + k.d,
        None => ordinal(*x),
    }
}
unsafe fn month_day(x: i32) -> (u32, u32) {
    let o = ordinal(x);
    let l = leap((s_yof(&x) >> 13) as i64);
    let mut m = 1;
    while m < 12 && o > cum(l, m + 1) as u32 {
        m += 1;
    }
    (m, o - cum(l, m) as u32)
}
#[export_name = "stub$chrono$naive$date$NaiveDate$month"]
unsafe extern "C" fn s_month(x: *const i32) -> u32 {
    match known(*x) {
        Some(k) => k.m,
        None => month_day(*x).0,
    }
}
#[export_name = "stub$chrono$naive$date$NaiveDate$day"]
unsafe extern "C" fn s_day(x: *const i32) -> u32 {
    match known(*x) {
        Some(k) => k.d,
        None => month_day(*x).1,
    }
}
/// month, day and (not used by the readers of either) the year's flags
#[export_name = "stub$chrono$naive$date$NaiveDate$mdf"]
unsafe extern "C" fn s_mdf(x: *const i32) -> u32 {
    let (m, d) = match known(*x) {
        Some(k) => (k.m, k.d),
        None => month_day(*x),
    };
    m << 9 | d << 4
}
/// Monday is 0; day 1 is a Monday
#[export_name = "stub$chrono$naive$date$NaiveDate$weekday"]
unsafe extern "C" fn s_weekday(x: *const i32) -> u8 {
    ((dec(*x) as i64 - 1).rem_euclid(7)) as u8
}
#[export_name = "stub$chrono$naive$date$NaiveDate$from_ymd_opt"]
unsafe extern "C" fn s_from_ymd(y: i32, m: u32, d: u32) -> i32 {
    let y = y as i64;
    if let Some(k) = KNOWN {
        if (y == k.y) & (m == k.m) & (d == k.d) {
            return enc(k.day as i32);
        }
    }
    if y < MIN_YEAR || y > MAX_YEAR || m < 1 || m > 12 || d < 1 {
        return 0;
    }
    let l = leap(y);
    if d > dim(l, m) {
        return 0;
    }
    enc((before(y) + cum(l, m) as i64 + d as i64) as i32)
}
/// k days later
pub fn next(x: i32, k: i32) -> i32 {
    s_add_days(x, k)
}
pub fn use_contracts() {
    unsafe { sym_stubs() }
}
