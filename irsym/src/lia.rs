//! Translation of a query into integer arithmetic (bit-vectors read as unbounded integers, wrap-around made
//! explicit where the ranges do not exclude it). Terms with no integer counterpart become fresh variables of the
//! right range, so "unsat" carries over; "sat" is accepted only if the model evaluates to true.
use crate::term::*;
use std::collections::{HashMap, HashSet};
use std::fmt::Write as _;

pub struct Lia<'a> {
    cx: &'a Cx,
    pub out: String,
    ints: HashMap<(T, bool), String>,
    bools: HashMap<T, String>,
    vars: HashSet<T>,
    n: u32,
    pub abstracted: u32,
    pub arith: u32,
}

fn num(v: i128) -> String {
    if v < 0 {
        format!("(- {})", v.unsigned_abs())
    } else {
        v.to_string()
    }
}
/// a table as pieces of straight lines: (last index, slope, value at 0)
fn segments(vals: &[u128], r: Range) -> Option<Vec<(i128, i128, i128)>> {
    if r.ulo as usize >= vals.len() || vals.iter().any(|v| *v >= 1 << 64) {
        return None;
    }
    let (lo, hi) = (r.ulo as usize, r.uhi.min(vals.len() as u128 - 1) as usize);
    let mut out = vec![];
    let mut a = lo;
    while a <= hi {
        let s = if a < hi { vals[a + 1] as i128 - vals[a] as i128 } else { 0 };
        let mut b = a;
        while b < hi && vals[b + 1] as i128 - vals[b] as i128 == s {
            b += 1;
        }
        out.push((b as i128, s, vals[a] as i128 - s * a as i128));
        if out.len() > 64 {
            return None;
        }
        a = b + 1;
    }
    Some(out)
}
fn pow2(w: u32) -> String {
    if w < 127 {
        (1u128 << w).to_string()
    } else if w == 127 {
        "170141183460469231731687303715884105728".into()
    } else {
        "340282366920938463463374607431768211456".into()
    }
}

impl<'a> Lia<'a> {
    pub fn new(cx: &'a Cx) -> Lia<'a> {
        Lia { cx, out: String::new(), ints: HashMap::new(), bools: HashMap::new(), vars: HashSet::new(), n: 0, abstracted: 0, arith: 0 }
    }
    fn def(&mut self, sort: &str, e: String) -> String {
        self.n += 1;
        let name = format!("{}{}", if sort == "Int" { "i" } else { "b" }, self.n);
        let _ = writeln!(self.out, "(define-fun {} () {} {})", name, sort, e);
        name
    }
    /// make sure every (sub)term is processed bottom-up so that recursion stays shallow
    pub fn prepare(&mut self, roots: &[T]) {
        let mut seen = HashSet::new();
        let mut order = vec![];
        let mut stack: Vec<(T, bool)> = roots.iter().map(|t| (*t, false)).collect();
        while let Some((t, ready)) = stack.pop() {
            if ready {
                order.push(t);
                continue;
            }
            if !seen.insert(t) {
                continue;
            }
            stack.push((t, true));
            let n = self.cx.n(t);
            for x in [n.a, n.b, n.c] {
                if x != NONE && !seen.contains(&x) {
                    stack.push((x, false));
                }
            }
        }
        for t in order {
            if self.cx.w(t) == 1 {
                self.b(t);
            } else {
                let s = self.native(t);
                self.v(t, s);
            }
        }
    }
    /// the reading in which the term is most naturally computed
    fn native(&self, t: T) -> bool {
        let n = self.cx.n(t);
        match n.op {
            Op::Var => self.cx.vars[n.k as usize].signed,
            Op::Xor => self.cx.cval(n.b) == Some(mask(n.w)),
            Op::Add | Op::Sub | Op::Mul | Op::Not | Op::SExt | Op::SDiv | Op::SRem | Op::AShr => true,
            Op::Ite => self.native_leaf(n.b, 3) || self.native_leaf(n.c, 3),
            _ => false,
        }
    }
    fn native_leaf(&self, t: T, d: u32) -> bool {
        if d == 0 {
            return false;
        }
        let n = self.cx.n(t);
        match n.op {
            Op::Ite => self.native_leaf(n.b, d - 1) || self.native_leaf(n.c, d - 1),
            _ => self.native(t),
        }
    }
    fn declare(&mut self, t: T, signed: bool) -> String {
        let r = self.cx.r(t);
        self.n += 1;
        let name = format!("v{}", t);
        if self.vars.insert(t) {
            let _ = writeln!(self.out, "(declare-const {} Int)", name);
            if signed {
                let _ = writeln!(self.out, "(assert (and (<= {} {n}) (<= {n} {})))", num(r.slo), num(r.shi), n = name);
            } else {
                let _ = writeln!(self.out, "(assert (and (<= {} {n}) (<= {n} {})))", r.ulo, r.uhi, n = name);
            }
        }
        name
    }
    /// bring `e`, known to be congruent to t modulo 2^w and within lo..=hi, into the wanted reading
    fn wrap(&mut self, e: String, lo: Option<i128>, hi: Option<i128>, w: u32, signed: bool) -> String {
        let (tl, th) = if signed { (Some(smin(w)), Some(smax(w))) } else { (Some(0), if w < 127 { Some(mask(w) as i128) } else { None }) };
        if let (Some(lo), Some(hi), Some(tl)) = (lo, hi, tl) {
            if lo >= tl && th.map(|t| hi <= t).unwrap_or(true) {
                return e;
            }
        }
        let m = pow2(w);
        self.arith += 1;
        let x = self.def("Int", e);
        // at most one wrap
        if w < 126 {
            if let (Some(lo), Some(hi), Some(tl), Some(th)) = (lo, hi, tl, th) {
                let p = 1i128 << w;
                // the same wrap for every value
                let q = (lo - tl).div_euclid(p);
                if q == (hi - tl).div_euclid(p) {
                    return format!("(- {} {})", x, num(q * p));
                }
                if lo >= tl - p && hi <= th + p {
                    return format!("(ite (< {x} {}) (+ {x} {m}) (ite (> {x} {}) (- {x} {m}) {x}))", num(tl), num(th), x = x, m = m);
                }
            }
        }
        if signed {
            let h = pow2(w - 1);
            format!("(- (mod (+ {} {}) {}) {})", x, h, m, h)
        } else {
            format!("(mod {} {})", x, m)
        }
    }
    fn rng(&self, t: T, signed: bool) -> (Option<i128>, Option<i128>) {
        let r = self.cx.r(t);
        if signed {
            (Some(r.slo), Some(r.shi))
        } else {
            (i128::try_from(r.ulo).ok(), i128::try_from(r.uhi).ok())
        }
    }
    pub fn v(&mut self, t: T, signed: bool) -> String {
        let cx = self.cx;
        let n = cx.n(t);
        let w = n.w;
        if n.op == Op::Const {
            return if signed { num(sx(n.k, w)) } else { n.k.to_string() };
        }
        if w == 1 {
            let b = self.b(t);
            return format!("(ite {} {} 0)", b, if signed { "(- 1)" } else { "1" });
        }
        let r = cx.r(t);
        // both readings agree
        let signed = signed && r.slo < 0;
        if let Some(x) = self.ints.get(&(t, signed)) {
            return x.clone();
        }
        let nat = self.native(t) && r.slo < 0;
        let e = if nat != signed {
            // from the other reading
            let x = self.v(t, nat);
            if signed {
                if r.shi < 0 {
                    format!("(- {} {})", x, pow2(w))
                } else {
                    format!("(ite (>= {x} {}) (- {x} {}) {x})", pow2(w - 1), pow2(w), x = x)
                }
            } else if r.shi < 0 {
                format!("(+ {} {})", x, pow2(w))
            } else {
                format!("(ite (< {x} 0) (+ {x} {}) {x})", pow2(w), x = x)
            }
        } else {
            match n.op {
                Op::Add | Op::Sub => {
                    // signed readings of the operands wherever one of them can be negative
                    let s = cx.r(n.a).slo < 0 || cx.r(n.b).slo < 0;
                    let (a, b) = (self.v(n.a, s), self.v(n.b, s));
                    let ((al, ah), (bl, bh)) = (self.rng(n.a, s), self.rng(n.b, s));
                    let z = |x: Option<i128>, y: Option<i128>, sub: bool| match (x, y) {
                        (Some(x), Some(y)) => if sub { x.checked_sub(y) } else { x.checked_add(y) },
                        _ => None,
                    };
                    if n.op == Op::Add {
                        self.wrap(format!("(+ {} {})", a, b), z(al, bl, false), z(ah, bh, false), w, signed)
                    } else {
                        self.wrap(format!("(- {} {})", a, b), z(al, bh, true), z(ah, bl, true), w, signed)
                    }
                }
                Op::Not | Op::Xor if n.op == Op::Not || cx.cval(n.b) == Some(mask(w)) => {
                    if signed || r.slo >= 0 {
                        let a = self.v(n.a, true);
                        format!("(- (- 1) {})", a)
                    } else {
                        let a = self.v(n.a, false);
                        format!("(- {} {})", mask(w), a)
                    }
                }
                Op::Mul => {
                    let s = cx.r(n.a).slo < 0 || cx.r(n.b).slo < 0;
                    let (a, b) = (self.v(n.a, s), self.v(n.b, s));
                    if cx.cval(n.a).is_none() && cx.cval(n.b).is_none() {
                        self.arith += 5;
                    }
                    let ((al, ah), (bl, bh)) = (self.rng(n.a, s), self.rng(n.b, s));
                    let (mut lo, mut hi) = (None, None);
                    if let (Some(al), Some(ah), Some(bl), Some(bh)) = (al, ah, bl, bh) {
                        let ps = [al.checked_mul(bl), al.checked_mul(bh), ah.checked_mul(bl), ah.checked_mul(bh)];
                        if ps.iter().all(|p| p.is_some()) {
                            lo = ps.iter().map(|p| p.unwrap()).min();
                            hi = ps.iter().map(|p| p.unwrap()).max();
                        }
                    }
                    self.wrap(format!("(* {} {})", a, b), lo, hi, w, signed)
                }
                Op::UDiv | Op::URem if cx.cval(n.b).map(|c| c != 0).unwrap_or(false) && !signed => {
                    let a = self.v(n.a, false);
                    self.arith += 1;
                    format!("({} {} {})", if n.op == Op::UDiv { "div" } else { "mod" }, a, cx.cval(n.b).unwrap())
                }
                Op::SDiv | Op::SRem if cx.cval(n.b).map(|c| c != 0 && c != mask(w)).unwrap_or(false) => {
                    let a = self.v(n.a, true);
                    let c = sx(cx.cval(n.b).unwrap(), w);
                    let m = num(c.saturating_abs());
                    self.arith += 1;
                    let sgn = c < 0;
                    // the quotient of the absolute value, with the sign put back
                    if n.op == Op::SDiv {
                        let (p, q) = if sgn { (format!("(- (div {} {}))", a, m), format!("(div (- {}) {})", a, m)) } else { (format!("(div {} {})", a, m), format!("(- (div (- {}) {}))", a, m)) };
                        let ar = cx.r(n.a);
                        if ar.slo >= 0 {
                            p
                        } else if ar.shi <= 0 {
                            q
                        } else {
                            format!("(ite (>= {} 0) {} {})", a, p, q)
                        }
                    } else {
                        let ar = cx.r(n.a);
                        let (p, q) = (format!("(mod {} {})", a, m), format!("(- (mod (- {}) {}))", a, m));
                        if ar.slo >= 0 {
                            p
                        } else if ar.shi <= 0 {
                            q
                        } else {
                            format!("(ite (>= {} 0) {} {})", a, p, q)
                        }
                    }
                }
                Op::Ite => {
                    let c = self.b(n.a);
                    let (x, y) = (self.v(n.b, signed), self.v(n.c, signed));
                    format!("(ite {} {} {})", c, x, y)
                }
                Op::ZExt => self.v(n.a, false),
                Op::SExt => self.v(n.a, true),
                Op::Extract if !signed => {
                    let aw = cx.w(n.a);
                    let a = self.v(n.a, false);
                    self.arith += 1;
                    let e = if n.k == 0 { a } else { format!("(div {} {})", a, pow2(n.k as u32)) };
                    let (_, h) = self.rng(n.a, false);
                    let fits = n.k as u32 + w == aw || h.map(|h| (h >> n.k.min(126)) <= mask(w.min(126)) as i128).unwrap_or(false);
                    if fits {
                        e
                    } else {
                        format!("(mod {} {})", e, pow2(w))
                    }
                }
                Op::Concat if !signed => {
                    let (a, b) = (self.v(n.a, false), self.v(n.b, false));
                    format!("(+ (* {} {}) {})", a, pow2(cx.w(n.b)), b)
                }
                Op::And if !signed && cx.cval(n.b).map(|m| m != 0 && (m & (m.wrapping_add(1))) == 0).unwrap_or(false) => {
                    let a = self.v(n.a, false);
                    self.arith += 1;
                    format!("(mod {} {})", a, pow2(cx.cval(n.b).unwrap().count_ones()))
                }
                Op::LShr if !signed && cx.cval(n.b).map(|c| c < w as u128).unwrap_or(false) => {
                    let a = self.v(n.a, false);
                    self.arith += 1;
                    format!("(div {} {})", a, pow2(cx.cval(n.b).unwrap() as u32))
                }
                Op::Shl if !signed && cx.cval(n.b).map(|c| c < w as u128).unwrap_or(false) => {
                    let a = self.v(n.a, false);
                    self.arith += 1;
                    format!("(mod (* {} {}) {})", a, pow2(cx.cval(n.b).unwrap() as u32), pow2(w))
                }
                Op::AShr if signed && cx.cval(n.b).map(|c| c < w as u128).unwrap_or(false) => {
                    let a = self.v(n.a, true);
                    self.arith += 1;
                    format!("(div {} {})", a, pow2(cx.cval(n.b).unwrap() as u32))
                }
                Op::Tbl if !signed && segments(&cx.tables[n.k as usize].vals, cx.r(n.a)).is_some() => {
                    let i = self.v(n.a, false);
                    let seg = segments(&cx.tables[n.k as usize].vals, cx.r(n.a)).unwrap();
                    let line = |(_, s, k): (i128, i128, i128)| match s {
                        0 => num(k),
                        1 => format!("(+ {} {})", i, num(k)),
                        _ => format!("(+ (* {} {}) {})", num(s), i, num(k)),
                    };
                    // beyond the table: anything
                    let open = cx.r(n.a).uhi >= cx.tables[n.k as usize].vals.len() as u128;
                    let mut e = if open {
                        self.abstracted += 1;
                        self.declare(t, signed)
                    } else {
                        line(seg[seg.len() - 1])
                    };
                    for x in seg.iter().rev().skip(!open as usize) {
                        e = format!("(ite (<= {} {}) {} {})", i, x.0, line(*x), e);
                    }
                    e
                }
                Op::Var => self.declare(t, signed),
                _ => {
                    self.abstracted += 1;
                    self.declare(t, signed)
                }
            }
        };
        let e = if e.starts_with('(') { self.def("Int", e) } else { e };
        self.ints.insert((t, signed), e.clone());
        e
    }
    pub fn b(&mut self, t: T) -> String {
        let cx = self.cx;
        let n = cx.n(t);
        if n.op == Op::Const {
            return if n.k == 1 { "true".into() } else { "false".into() };
        }
        if let Some(x) = self.bools.get(&t) {
            return x.clone();
        }
        let e = match n.op {
            Op::Not => {
                let a = self.b(n.a);
                format!("(not {})", a)
            }
            Op::And | Op::Or | Op::Xor => {
                let (a, b) = (self.b(n.a), self.b(n.b));
                format!("({} {} {})", match n.op { Op::And => "and", Op::Or => "or", _ => "xor" }, a, b)
            }
            Op::Ite => {
                let (c, a, b) = (self.b(n.a), self.b(n.b), self.b(n.c));
                format!("(ite {} {} {})", c, a, b)
            }
            Op::Eq => {
                if cx.w(n.a) == 1 {
                    let (a, b) = (self.b(n.a), self.b(n.b));
                    format!("(= {} {})", a, b)
                } else {
                    let nat = |x: T| {
                        if cx.cval(x).is_some() {
                            None
                        } else {
                            Some(self.native(x) && cx.r(x).slo < 0)
                        }
                    };
                    let s = nat(n.a).or(nat(n.b)).unwrap_or(false);
                    let (a, b) = (self.v(n.a, s), self.v(n.b, s));
                    format!("(= {} {})", a, b)
                }
            }
            Op::Ult | Op::Ule | Op::Slt | Op::Sle if cx.w(n.a) > 1 => {
                let s = matches!(n.op, Op::Slt | Op::Sle);
                let (a, b) = (self.v(n.a, s), self.v(n.b, s));
                format!("({} {} {})", if matches!(n.op, Op::Ult | Op::Slt) { "<" } else { "<=" }, a, b)
            }
            Op::SAddO | Op::UAddO | Op::SSubO | Op::SMulO | Op::UMulO if cx.w(n.a) > 1 => {
                let s = matches!(n.op, Op::SAddO | Op::SSubO | Op::SMulO);
                let w = cx.w(n.a);
                let (a, b) = (self.v(n.a, s), self.v(n.b, s));
                let o = match n.op {
                    Op::SAddO | Op::UAddO => "+",
                    Op::SSubO => "-",
                    _ => {
                        if cx.cval(n.a).is_none() && cx.cval(n.b).is_none() {
                            self.arith += 5;
                        }
                        "*"
                    }
                };
                self.arith += 1;
                let x = self.def("Int", format!("({} {} {})", o, a, b));
                if s {
                    format!("(or (< {x} (- {h})) (>= {x} {h}))", x = x, h = pow2(w - 1))
                } else {
                    format!("(or (< {x} 0) (>= {x} {h}))", x = x, h = pow2(w))
                }
            }
            Op::InRange => "true".into(),
            _ => {
                if n.op != Op::Var {
                    self.abstracted += 1;
                }
                let name = format!("v{}", t);
                if self.vars.insert(t) {
                    let _ = writeln!(self.out, "(declare-const {} Bool)", name);
                }
                name
            }
        };
        let e = if e.starts_with('(') { self.def("Bool", e) } else { e };
        self.bools.insert(t, e.clone());
        e
    }
    /// a reading in which variable t is declared
    pub fn declared(&self, t: T) -> bool {
        self.vars.contains(&t)
    }
}

/// model values "(v12 (- 5))" -> modulo 2^w
pub fn parse_model(cx: &Cx, s: &str) -> HashMap<T, u128> {
    let mut m = HashMap::new();
    let toks: Vec<String> = s.replace('(', " ( ").replace(')', " ) ").split_whitespace().map(|x| x.to_string()).collect();
    let mut i = 0;
    while i + 1 < toks.len() {
        if let Some(d) = toks[i].strip_prefix('v') {
            if let Ok(t) = d.parse::<u32>() {
                let v = &toks[i + 1];
                let val: Option<i128> = if v == "true" {
                    Some(1)
                } else if v == "false" {
                    Some(0)
                } else if v == "(" && toks.get(i + 2).map(|x| x == "-").unwrap_or(false) {
                    toks.get(i + 3).and_then(|x| x.parse::<i128>().ok()).map(|x| -x)
                } else {
                    v.parse::<u128>().ok().map(|x| x as i128)
                };
                if let Some(x) = val {
                    m.insert(t, x as u128 & mask(cx.w(t)));
                }
            }
        }
        i += 1;
    }
    m
}
