//! Runs one harness natively on given input values: `replay <harness> <hex,hex,...>`.
//! exit 0: held; 10: a check failed; 11: unexpected panic; 12: watched memory changed; 13: no rejection
#![allow(non_snake_case, dead_code, unused_imports, unused_macros, clashing_extern_declarations)]
extern crate iec61131std;
#[macro_use]
#[path = "../../src/api.rs"]
mod api;
include!(concat!(env!("VH_MODS"), "/mods.rs"));
use std::cell::RefCell;
use std::sync::Mutex;

struct St {
    vals: Vec<u64>,
    pos: usize,
    must: u32,
    watch: Vec<(usize, Vec<u8>)>,
}
static ST: Mutex<St> = Mutex::new(St { vals: vec![], pos: 0, must: 0, watch: vec![] });

extern "C" {
    fn mmap(a: *mut u8, n: usize, prot: i32, flags: i32, fd: i32, off: i64) -> *mut u8;
    fn mprotect(a: *mut u8, n: usize, prot: i32) -> i32;
    fn _exit(c: i32) -> !;
}
fn next() -> Option<u64> {
    let mut s = ST.lock().unwrap();
    let v = s.vals.get(s.pos).copied();
    s.pos += 1;
    v
}
fn quit(code: i32, msg: &str) -> ! {
    use std::io::Write;
    println!("{}", msg);
    let _ = std::io::stdout().flush();
    unsafe { _exit(code) }
}
#[no_mangle]
pub extern "C" fn sym_u(w: u32, lo: u64, _hi: u64) -> u64 {
    let v = next().unwrap_or(lo);
    if w < 64 {
        v & ((1 << w) - 1)
    } else {
        v
    }
}
#[no_mangle]
pub extern "C" fn sym_s(w: u32, lo: i64, _hi: i64) -> i64 {
    let v = next().unwrap_or(lo as u64);
    let s = 64 - w;
    ((v << s) as i64) >> s
}
#[no_mangle]
pub extern "C" fn sym_assume(b: bool) {
    if !b {
        quit(20, "ASSUMPTION-FALSE");
    }
}
#[no_mangle]
pub extern "C" fn sym_stubs() {}
#[no_mangle]
pub extern "C" fn sym_unsupported_pattern_search() {}
#[no_mangle]
pub extern "C" fn sym_check(b: bool, id: u32) {
    if !b {
        quit(10, &format!("CHECK-FAILED {}", id));
    }
}
#[no_mangle]
pub extern "C" fn sym_cover(_id: u32) {}
#[no_mangle]
pub extern "C" fn sym_must_panic(id: u32) {
    ST.lock().unwrap().must = id;
}
#[no_mangle]
pub extern "C" fn sym_never(id: u32) {
    quit(13, &format!("NOT-REJECTED {}", id));
}
#[no_mangle]
pub unsafe extern "C" fn sym_watch(p: *const u8, n: usize) {
    let v = std::slice::from_raw_parts(p, n).to_vec();
    ST.lock().unwrap().watch.push((p as usize, v));
}
#[no_mangle]
pub extern "C" fn sym_concretize(v: u64) -> u64 {
    v
}
#[no_mangle]
pub unsafe extern "C" fn sym_buf(n: usize) -> *mut u8 {
    let pg = 4096;
    let k = (n + pg - 1) / pg * pg;
    let p = mmap(std::ptr::null_mut(), k + pg, 3, 0x22, -1, 0);
    mprotect(p.add(k), pg, 0);
    p.add(k - n)
}
fn main() {
    let a: Vec<String> = std::env::args().collect();
    if a.len() > 2 {
        ST.lock().unwrap().vals = a[2].split(',').filter(|x| !x.is_empty()).map(|x| u64::from_str_radix(x, 16).unwrap()).collect();
    }
    std::panic::set_hook(Box::new(|i| {
        let (must, watch) = {
            let mut s = ST.lock().unwrap();
            (s.must, std::mem::take(&mut s.watch))
        };
        if must == 0 {
            quit(11, &format!("PANIC {}", i.to_string().replace('\n', " ")));
        }
        for (p, old) in watch {
            let now = unsafe { std::slice::from_raw_parts(p as *const u8, old.len()) };
            if now != &old[..] {
                quit(12, "WATCHED-MEMORY-CHANGED");
            }
        }
        quit(0, "REJECTED");
    }));
    dispatch(&a[1]);
    if ST.lock().unwrap().must != 0 {
        quit(13, "NOT-REJECTED");
    }
    quit(0, "HELD");
}
include!(concat!(env!("VH_MODS"), "/dispatch.rs"));
