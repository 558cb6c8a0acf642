extern "C" {
    /// an arbitrary unsigned value of `w` bits in lo..=hi
    pub fn sym_u(w: u32, lo: u64, hi: u64) -> u64;
    /// an arbitrary signed value of `w` bits in lo..=hi (sign-extended)
    pub fn sym_s(w: u32, lo: i64, hi: i64) -> i64;
    pub fn sym_assume(b: bool);
    pub fn sym_check(b: bool, id: u32);
    pub fn sym_cover(id: u32);
    /// from here on the path has to end in a panic
    pub fn sym_must_panic(id: u32);
    /// reached although a panic was required
    pub fn sym_never(id: u32);
    /// memory that must be unchanged when the required panic happens
    pub fn sym_watch(p: *const u8, n: usize);
    /// enumerate the values of `v` by case split
    pub fn sym_concretize(v: u64) -> u64;
    /// from here on functions of dependencies that have a contract ("stub$..." in chr.rs) are replaced by it
    pub fn sym_stubs();
    /// `n` bytes (zeroed) with inaccessible memory behind them
    pub fn sym_buf(n: usize) -> *mut u8;
}
/// check lines of different files are kept apart by FILE
macro_rules! check {
    ($e:expr) => {{
        const ID: u32 = FILE * 10000 + line!();
        let b: bool = $e;
        unsafe { $crate::api::sym_check(b, ID) }
    }};
}
macro_rules! cover {
    () => {{
        const ID: u32 = FILE * 10000 + line!();
        unsafe { $crate::api::sym_cover(ID) }
    }};
}
macro_rules! must_panic {
    ($e:expr) => {{
        const ID: u32 = FILE * 10000 + line!();
        unsafe { $crate::api::sym_must_panic(ID) };
        let _ = $e;
        unsafe { $crate::api::sym_never(ID) }
    }};
}
pub fn assume(b: bool) {
    unsafe { sym_assume(b) }
}
pub fn ur(w: u32, lo: u64, hi: u64) -> u64 {
    unsafe { sym_u(w, lo, hi) }
}
pub fn sr(w: u32, lo: i64, hi: i64) -> i64 {
    unsafe { sym_s(w, lo, hi) }
}
pub fn u8v() -> u8 {
    ur(8, 0, 0xff) as u8
}
pub fn u16v() -> u16 {
    ur(16, 0, 0xffff) as u16
}
pub fn u32v() -> u32 {
    ur(32, 0, 0xffff_ffff) as u32
}
pub fn u64v() -> u64 {
    ur(64, 0, u64::MAX)
}
pub fn i8v() -> i8 {
    u8v() as i8
}
pub fn i16v() -> i16 {
    u16v() as i16
}
pub fn i32v() -> i32 {
    u32v() as i32
}
pub fn i64v() -> i64 {
    u64v() as i64
}
pub fn f32v() -> f32 {
    f32::from_bits(u32v())
}
pub fn f64v() -> f64 {
    f64::from_bits(u64v())
}
pub fn boolv() -> bool {
    ur(1, 0, 1) == 1
}
/// case split over 0..n
pub fn choose(n: u64) -> u64 {
    let k = ur(16, 0, n - 1);
    unsafe { sym_concretize(k) }
}
pub fn fork(v: u64) -> u64 {
    unsafe { sym_concretize(v) }
}
pub fn forki(v: i64) -> i64 {
    unsafe { sym_concretize(v as u64) as i64 }
}
pub fn buf(n: usize) -> *mut u8 {
    unsafe { sym_buf(n) }
}
/// an arbitrary value of the type
pub trait Any: Copy {
    fn any() -> Self;
}
macro_rules! any {
    ($($t:ty => $f:ident),*) => { $(impl Any for $t { fn any() -> Self { $f() } })* };
}
any!(u8 => u8v, u16 => u16v, u32 => u32v, u64 => u64v, i8 => i8v, i16 => i16v, i32 => i32v, i64 => i64v, f32 => f32v, f64 => f64v, bool => boolv);
