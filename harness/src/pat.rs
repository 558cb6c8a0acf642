//! Contract of core's substring search (`str::find`, `split`, `contains`, ... with a &str pattern): what the two-way
//! algorithm computes, by comparison at one position after the other. Natively core's own code runs.
use crate::api::*;
#[repr(C)]
pub struct Search {
    h: *const u8,
    hn: usize,
    n: *const u8,
    nn: usize,
    from: usize,
    to: usize,
    _rest: [usize; 7],
}
unsafe fn same(a: *const u8, b: *const u8, n: usize) -> bool {
    core::slice::from_raw_parts(a, n) == core::slice::from_raw_parts(b, n)
}
extern "C" {
    /// without a definition: no verdict on a path that comes here
    fn sym_unsupported_pattern_search();
}
#[export_name = "stub$core$str$pattern$StrSearcher$new"]
unsafe extern "Rust" fn new(h: &str, n: &str) -> Search {
    if n.is_empty() {
        sym_unsupported_pattern_search();
    }
    Search { h: h.as_ptr(), hn: h.len(), n: n.as_ptr(), nn: n.len(), from: 0, to: h.len(), _rest: [0; 7] }
}
#[export_name = "stub$__core$str$pattern$StrSearcher_as_core$str$pattern$Searcher_$next_match"]
unsafe extern "Rust" fn next_match(s: &mut Search) -> Option<(usize, usize)> {
    while s.from + s.nn <= s.to {
        let i = s.from;
        if same(s.h.add(i), s.n, s.nn) {
            s.from = i + s.nn;
            return Some((i, i + s.nn));
        }
        s.from = i + 1;
    }
    s.from = s.to;
    None
}
#[export_name = "stub$__core$str$pattern$StrSearcher_as_core$str$pattern$ReverseSearcher_$next_match_back"]
unsafe extern "Rust" fn next_match_back(s: &mut Search) -> Option<(usize, usize)> {
    while s.from + s.nn <= s.to {
        let i = s.to - s.nn;
        if same(s.h.add(i), s.n, s.nn) {
            s.to = i;
            return Some((i, i + s.nn));
        }
        s.to -= 1;
    }
    s.to = s.from;
    None
}
#[export_name = "stub$__core$str$pattern$StrSearcher_as_core$str$pattern$Searcher_$next_reject"]
unsafe extern "Rust" fn next_reject(_: &mut Search) -> Option<(usize, usize)> {
    sym_unsupported_pattern_search();
    None
}
#[export_name = "stub$__core$str$pattern$StrSearcher_as_core$str$pattern$Searcher_$next"]
unsafe extern "Rust" fn next(_: &mut Search) -> (usize, usize, usize) {
    sym_unsupported_pattern_search();
    (0, 0, 0)
}
#[export_name = "stub$___str_as_core$str$pattern$Pattern_$is_contained_in"]
unsafe extern "Rust" fn contained(n: &str, h: &str) -> bool {
    let mut i = 0;
    while i + n.len() <= h.len() {
        if same(h.as_ptr().add(i), n.as_ptr(), n.len()) {
            return true;
        }
        i += 1;
    }
    false
}
pub fn use_contracts() {
    unsafe { sym_stubs() }
}
