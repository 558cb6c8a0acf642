//! Harnesses. Each `h_<property>_<mode><tier>_<what>` function states one property over symbolic inputs.
//! mode: d = IR of the dev profile (overflow checks and debug assertions on), r = release semantics (both off)
//! tier: q = quick and thorough, t = thorough only
//! The library is called through its exported symbols, as a PLC program does.
#![allow(non_snake_case, dead_code, unused_imports, unused_macros, clashing_extern_declarations)]
extern crate iec61131std;
#[macro_use]
mod api;
include!(concat!(env!("VH_MODS"), "/mods.rs"));
