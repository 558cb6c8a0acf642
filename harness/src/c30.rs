//! The platform's floating-point scaling of durations is a model here: any result that lies within the bounds which
//! the binary exponent of the factor implies (relative error 2^-18, absolute error 2 ns), the same one for the same
//! operands. Natively it is the real thing.
use crate::api::*;
use std::time::Duration;
const FILE: u32 = 30;
const G: i64 = 1_000_000_000;
extern "C" {
    fn MUL__TIME__REAL(a: i64, b: f32) -> i64;
    fn MUL_TIME__REAL(a: i64, b: f32) -> i64;
    fn MUL_LTIME__REAL(a: i64, b: f32) -> i64;
    fn MUL__TIME__LREAL(a: i64, b: f64) -> i64;
    fn MUL_TIME__LREAL(a: i64, b: f64) -> i64;
    fn MUL_LTIME__LREAL(a: i64, b: f64) -> i64;
    fn DIV__TIME__REAL(a: i64, b: f32) -> i64;
    fn DIV_TIME__REAL(a: i64, b: f32) -> i64;
    fn DIV_LTIME__REAL(a: i64, b: f32) -> i64;
    fn DIV__TIME__LREAL(a: i64, b: f64) -> i64;
    fn DIV_TIME__LREAL(a: i64, b: f64) -> i64;
    fn DIV_LTIME__LREAL(a: i64, b: f64) -> i64;
}
/// zone k of the factors: 2^EDGE[k-1] <= |b| < 2^EDGE[k]
const EDGE: [i32; 8] = [-40, -8, -1, 0, 1, 2, 8, 40];
const ZONES: u64 = 12;
const ZERO: u64 = 9;
const INF: u64 = 10;
const NAN: u64 = 11;
/// bits (without the sign) of the smallest and the largest number of a zone
fn zone(k: u64, mb: u32, bias: i32) -> (u64, u64) {
    let p = |e: i32| ((e + bias) as u64) << mb;
    let inf = ((2 * bias + 1) as u64) << mb;
    match k {
        ZERO => (0, 0),
        INF => (inf, inf),
        NAN => (inf + 1, inf | (1 << mb) - 1),
        0 => (1, p(EDGE[0]) - 1),
        8 => (p(EDGE[7]), inf - 1),
        _ => (p(EDGE[k as usize - 1]), p(EDGE[k as usize]) - 1),
    }
}
fn z32(k: u64) -> f32 {
    let (a, b) = zone(k, 23, 127);
    let neg = choose(2) as u32;
    f32::from_bits(ur(32, a, b) as u32 | neg << 31)
}
fn z64(k: u64) -> f64 {
    let (a, b) = zone(k, 52, 1023);
    let neg = choose(2);
    f64::from_bits(ur(64, a, b) | neg << 63)
}
/// every TIME
fn time() -> i64 {
    match choose(5) {
        0 => sr(64, 0, 9_223_372_035) * G + sr(64, 0, G - 1),
        1 => 9_223_372_036 * G + sr(64, 0, 854_775_807),
        2 => -(sr(64, 0, 9_223_372_035) * G + sr(64, 0, G - 1)),
        3 => -(9_223_372_036 * G + sr(64, 0, 854_775_807)),
        _ => i64::MIN,
    }
}
/// one application of the platform's scaling
#[derive(Clone, Copy)]
struct Out {
    used: bool,
    op: u32,
    t: u64,
    bits: u64,
    /// 0: fits 64 bits of nanoseconds, 1: more than that, 2: no duration
    kind: u64,
    secs: u64,
    nanos: u32,
}
const NONE: Out = Out { used: false, op: 0, t: 0, bits: 0, kind: 0, secs: 0, nanos: 0 };
static mut OUT: [Out; 2] = [NONE, NONE];
/// the variables for two different applications
unsafe fn prep() {
    let mut i = 0;
    while i < 2 {
        OUT[i] = NONE;
        OUT[i].kind = ur(8, 0, 2);
        OUT[i].secs = ur(64, 0, 18_446_744_073);
        OUT[i].nanos = ur(32, 0, 999_999_999) as u32;
        i += 1;
    }
    sym_stubs();
}
/// op: bit 0: division, bit 1: LREAL
unsafe fn model(op: u32, t: u64, bits: u64) -> Option<(u64, u32)> {
    let i = if !OUT[0].used || (OUT[0].op == op && OUT[0].t == t && OUT[0].bits == bits) { 0 } else { 1 };
    let o = &mut OUT[i];
    if i == 1 && o.used {
        // a third application: not modelled
        assume(o.op == op && o.t == t && o.bits == bits);
    }
    let first = !o.used;
    o.used = true;
    o.op = op;
    o.t = t;
    o.bits = bits;
    let (mb, bias) = if op < 2 { (23, 127) } else { (52, 1023) };
    let top = if op < 2 { 31 } else { 63 };
    let neg = bits >> top != 0;
    let m = bits & ((1 << top) - 1);
    let mut k = 0;
    while k < ZONES {
        let (a, b) = zone(k, mb, bias);
        if m >= a && m <= b {
            break;
        }
        k += 1;
    }
    let div = op & 1 == 1;
    if k == NAN || k == ZERO && div || k == INF && !div {
        return None;
    }
    if k == ZERO || k == INF || t == 0 {
        return Some((0, 0));
    }
    if neg {
        return None;
    }
    if o.kind == 3 {
        return Some((o.secs, o.nanos));
    }
    let kind = fork(o.kind);
    if first {
        // the result lies between t * 2^lo and t * 2^hi
        let (mut lo, mut hi) = (if k > 0 { EDGE[k as usize - 1] } else { -200 }, if k < 8 { EDGE[k as usize] } else { 200 });
        if div {
            (lo, hi) = (-hi, -lo);
        }
        let t = t as i128;
        let scaled = |x: i128, e: i32| if e >= 0 { x << e } else { x >> -e };
        // in units of 2^-18 ns, with the factor 1 +- 2^-18
        let e18 = 1i128 << 18;
        let low = if lo <= -200 { 0 } else { scaled(t * (e18 - 1), if lo > 40 { 40 } else { lo }) - 2 * e18 };
        let none = hi >= 200;
        let high = if none { 0 } else { scaled(t * (e18 + 1), if hi < -60 { -60 } else { hi }) + 2 * e18 };
        match kind {
            0 => {
                let r = (o.secs as i128 * G as i128 + o.nanos as i128) * e18;
                assume(low <= r);
                assume(none || r <= high);
            }
            1 => {
                assume(none || high >= (1i128 << 64) * e18);
                assume(low < (1i128 << 94) * e18);
            }
            _ => {
                assume(none || high >= (1i128 << 93) * e18);
            }
        }
    }
    match kind {
        0 => Some((o.secs, o.nanos)),
        1 => Some((18_446_744_074 + o.secs * (1 << 28), o.nanos)),
        _ => None,
    }
}
unsafe fn apply(op: u32, d: Duration, bits: u64) -> Duration {
    let t = d.as_secs() * G as u64 + d.subsec_nanos() as u64;
    match model(op, t, bits) {
        Some((s, n)) => Duration::new(s, n),
        None => panic!(),
    }
}
#[export_name = "stub$core$time$Duration$mul_f32"]
unsafe extern "Rust" fn s_mul32(d: Duration, f: f32) -> Duration {
    apply(0, d, f.to_bits() as u64)
}
#[export_name = "stub$core$time$Duration$div_f32"]
unsafe extern "Rust" fn s_div32(d: Duration, f: f32) -> Duration {
    apply(1, d, f.to_bits() as u64)
}
#[export_name = "stub$core$time$Duration$mul_f64"]
unsafe extern "Rust" fn s_mul64(d: Duration, f: f64) -> Duration {
    apply(2, d, f.to_bits())
}
#[export_name = "stub$core$time$Duration$div_f64"]
unsafe extern "Rust" fn s_div64(d: Duration, f: f64) -> Duration {
    apply(3, d, f.to_bits())
}
#[export_name = "stub$vh$c30$platform"]
unsafe fn s_platform(op: u32, t: u64, bits: u64) -> Option<Duration> {
    match model(op, t, bits) {
        Some((s, n)) => Some(Duration::new(s, n)),
        None => None,
    }
}
/// what the platform makes of the magnitudes
#[inline(never)]
unsafe fn platform(op: u32, t: u64, bits: u64) -> Option<Duration> {
    let d = Duration::from_nanos(t);
    match op {
        0 => Duration::try_from_secs_f32(d.as_secs_f32() * f32::from_bits(bits as u32)),
        1 => Duration::try_from_secs_f32(d.as_secs_f32() / f32::from_bits(bits as u32)),
        2 => Duration::try_from_secs_f64(d.as_secs_f64() * f64::from_bits(bits)),
        _ => Duration::try_from_secs_f64(d.as_secs_f64() / f64::from_bits(bits)),
    }
    .ok()
}
unsafe fn go<T: Copy>(op: u32, z: unsafe fn(u64) -> T, bits: fn(T) -> (u64, bool), f: [unsafe extern "C" fn(i64, T) -> i64; 3]) {
    let f = f[choose(3) as usize];
    prep();
    let a = time();
    let b = z(choose(ZONES));
    let (m, neg) = bits(b);
    let neg = neg != (a < 0);
    match platform(op, a.unsigned_abs(), m) {
        None => must_panic!(f(a, b)),
        Some(d) => {
            if d.as_secs() > 9_223_372_036 || d.as_secs() == 9_223_372_036 && d.subsec_nanos() > 854_775_807 {
                // -2^63 itself may be returned or not
                if !(neg && d.as_secs() == 9_223_372_036 && d.subsec_nanos() == 854_775_808) {
                    must_panic!(f(a, b));
                }
            } else {
                let r = d.as_secs() as i64 * G + d.subsec_nanos() as i64;
                check!(f(a, b) == if neg { -r } else { r });
            }
        }
    }
}
/// whole seconds and powers of two: the result is known exactly
unsafe fn exact<T: Copy>(op: u32, pow: fn(i32) -> T, bits: fn(T) -> (u64, bool), f: [unsafe extern "C" fn(i64, T) -> i64; 3]) {
    let f = f[choose(3) as usize];
    prep();
    let up = choose(26) as i32 - 9;
    let e = if op & 1 == 0 { up } else { -up };
    let s = sr(64, 1, if op < 2 { (1 << 24) - 1 } else { 9_223_372_035 });
    let b = pow(e);
    let q = if up >= 0 { (s as i128) << up } else { (s as i128) >> -up };
    let n = if up >= 0 { 0 } else { (s & ((1 << -up) - 1)) * (G >> -up) };
    known(op, (s * G) as u64, bits(b).0, q as u64, n as u32);
    let m = choose(4);
    let a = if m & 1 == 0 { s * G } else { -s * G };
    let b = if m & 2 == 0 { b } else { neg(pow, e) };
    let r = q * G as i128 + n as i128;
    if r > i64::MAX as i128 {
        must_panic!(f(a, b));
    } else {
        check!(f(a, b) as i128 == if m == 1 || m == 2 { -r } else { r });
    }
}
/// pow(e) with the sign bit set
unsafe fn neg<T: Copy>(pow: fn(i32) -> T, e: i32) -> T {
    pow(e + 1000)
}
fn p32(e: i32) -> f32 {
    if e > 500 {
        return -p32(e - 1000);
    }
    f32::from_bits(((e + 127) as u32) << 23)
}
fn p64(e: i32) -> f64 {
    if e > 500 {
        return -p64(e - 1000);
    }
    f64::from_bits(((e + 1023) as u64) << 52)
}
#[export_name = "stub$vh$c30$known"]
unsafe fn s_known(op: u32, t: u64, bits: u64, secs: u64, nanos: u32) {
    let o = &mut OUT[0];
    o.used = true;
    o.op = op;
    o.t = t;
    o.bits = bits;
    o.kind = 3;
    o.secs = secs;
    o.nanos = nanos;
}
/// tells the model what the first operation gives
#[inline(never)]
unsafe fn known(op: u32, t: u64, bits: u64, secs: u64, nanos: u32) {
    let _ = (op, t, bits, secs, nanos);
}
fn b32(x: f32) -> (u64, bool) {
    ((x.to_bits() & 0x7fff_ffff) as u64, x.to_bits() >> 31 != 0)
}
fn b64(x: f64) -> (u64, bool) {
    (x.to_bits() & (u64::MAX >> 1), x.to_bits() >> 63 != 0)
}
unsafe fn u32z(k: u64) -> f32 {
    z32(k)
}
unsafe fn u64z(k: u64) -> f64 {
    z64(k)
}
macro_rules! h {
    ($($h:ident $e:expr;)*) => { $(#[no_mangle] pub unsafe extern "C" fn $h() { $e })* };
}
h! {
    h_c30_dq_mul_real go(0, u32z, b32, [MUL__TIME__REAL, MUL_TIME__REAL, MUL_LTIME__REAL]);
    h_c30_dq_div_real go(1, u32z, b32, [DIV__TIME__REAL, DIV_TIME__REAL, DIV_LTIME__REAL]);
    h_c30_dq_mul_lreal go(2, u64z, b64, [MUL__TIME__LREAL, MUL_TIME__LREAL, MUL_LTIME__LREAL]);
    h_c30_dq_div_lreal go(3, u64z, b64, [DIV__TIME__LREAL, DIV_TIME__LREAL, DIV_LTIME__LREAL]);
    h_c30_rq_mul_real go(0, u32z, b32, [MUL__TIME__REAL, MUL_TIME__REAL, MUL_LTIME__REAL]);
    h_c30_rq_div_real go(1, u32z, b32, [DIV__TIME__REAL, DIV_TIME__REAL, DIV_LTIME__REAL]);
    h_c30_rq_mul_lreal go(2, u64z, b64, [MUL__TIME__LREAL, MUL_TIME__LREAL, MUL_LTIME__LREAL]);
    h_c30_rq_div_lreal go(3, u64z, b64, [DIV__TIME__LREAL, DIV_TIME__LREAL, DIV_LTIME__LREAL]);
    h_c30_dq_exact_mul_real exact(0, p32, b32, [MUL__TIME__REAL, MUL_TIME__REAL, MUL_LTIME__REAL]);
    h_c30_dq_exact_div_real exact(1, p32, b32, [DIV__TIME__REAL, DIV_TIME__REAL, DIV_LTIME__REAL]);
    h_c30_dq_exact_mul_lreal exact(2, p64, b64, [MUL__TIME__LREAL, MUL_TIME__LREAL, MUL_LTIME__LREAL]);
    h_c30_dq_exact_div_lreal exact(3, p64, b64, [DIV__TIME__LREAL, DIV_TIME__LREAL, DIV_LTIME__LREAL]);
    h_c30_rq_exact_mul_real exact(0, p32, b32, [MUL__TIME__REAL, MUL_TIME__REAL, MUL_LTIME__REAL]);
    h_c30_rq_exact_div_real exact(1, p32, b32, [DIV__TIME__REAL, DIV_TIME__REAL, DIV_LTIME__REAL]);
    h_c30_rq_exact_mul_lreal exact(2, p64, b64, [MUL__TIME__LREAL, MUL_TIME__LREAL, MUL_LTIME__LREAL]);
    h_c30_rq_exact_div_lreal exact(3, p64, b64, [DIV__TIME__LREAL, DIV_TIME__LREAL, DIV_LTIME__LREAL]);
}
