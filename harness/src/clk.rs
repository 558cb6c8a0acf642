//! The operating system's clock, under the harness's control: `clock_gettime` of this module is what the
//! library's std calls, natively and symbolically.
use crate::api::*;
pub const G: i64 = 1_000_000_000;
struct Clock {
    s: i64,
    n: i64,
    step: i64,
    moving: bool,
    reads: u32,
}
static mut C: Clock = Clock { s: 0, n: 0, step: 0, moving: false, reads: 0 };
/// an arbitrary first reading; afterwards time passes in steps of up to `step` seconds plus a fraction
pub unsafe fn start(step: i64, moving: bool) {
    C.step = step;
    C.moving = moving;
    C.s = sr(64, 0, 1 << 31);
    C.n = sr(64, 0, G - 1);
}
/// let an arbitrary time pass
pub unsafe fn pass() {
    let ds = sr(64, 0, C.step);
    let n = sr(64, 0, G - 1);
    assume(ds > 0 || n >= C.n);
    C.s += ds;
    C.n = n;
}
/// now, in nanoseconds
pub unsafe fn now() -> i64 {
    C.s * G + C.n
}
pub unsafe fn reads() -> u32 {
    C.reads
}
pub unsafe fn set(s: i64, n: i64) {
    C.s = s;
    C.n = n;
}
#[no_mangle]
pub unsafe extern "C" fn clock_gettime(_id: i32, t: *mut i64) -> i32 {
    if C.moving {
        pass();
    }
    C.reads += 1;
    *t = C.s;
    *t.add(1) = C.n;
    0
}
