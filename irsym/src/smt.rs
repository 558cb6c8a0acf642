//! Solver access: SMT-LIB text over a pipe to a persistent z3, with a one-shot portfolio for queries it gives up on.
use crate::term::*;
use std::collections::{HashMap, HashSet};
use std::io::{BufRead, BufReader, Write};
use std::process::{Child, ChildStdin, ChildStdout, Command, Stdio};
use std::rc::Rc;
use std::time::{Duration, Instant};

#[derive(Clone, Debug)]
pub enum Ans {
    Sat(Rc<HashMap<T, u128>>),
    Unsat,
    Unknown,
}

struct Proc {
    child: Child,
    inp: ChildStdin,
    out: BufReader<ChildStdout>,
    defined: HashSet<T>,
    tables: HashSet<u32>,
    ufs: HashSet<(u32, u32, u32, u32)>,
}

#[derive(Default, Clone, Debug)]
pub struct Stats {
    pub queries: u64,
    pub cache_hits: u64,
    pub hard: u64,
    pub unsat: u64,
    pub sat: u64,
    pub unknown: u64,
    pub time: f64,
    pub max_time: f64,
    pub xchecks: u64,
}

pub struct Solver {
    z3: Option<Proc>,
    /// second z3 for queries in integer arithmetic
    zi: Option<Proc>,
    zs: Option<Proc>,
    cache: HashMap<Vec<T>, Ans>,
    vars: HashMap<T, Rc<Vec<u32>>>,
    pub stats: Stats,
    pub quick_ms: u64,
    /// give up after the first attempts
    pub brief: bool,
    /// the last integer query was satisfiable, but only because of terms left open
    open_sat: bool,
    pub hard_ms: u64,
    /// time for the search by evaluation
    pub search_ms: u64,
    pub xcheck: bool,
    pub dump: Option<String>,
    pub deadline: Option<Instant>,
}

fn sort(w: u32) -> String {
    if w == 1 {
        "Bool".into()
    } else {
        format!("(_ BitVec {})", w)
    }
}
fn konst(w: u32, v: u128) -> String {
    if w == 1 {
        return if v == 1 { "true".into() } else { "false".into() };
    }
    if w % 4 == 0 {
        format!("#x{:0width$x}", v, width = (w / 4) as usize)
    } else {
        format!("#b{:0width$b}", v, width = w as usize)
    }
}
fn fs(w: u32) -> &'static str {
    if w == 32 {
        "8 24"
    } else {
        "11 53"
    }
}

/// SMT-LIB definitions needed for the given terms, skipping what `defined` already holds
fn emit(cx: &Cx, roots: &[T], out: &mut String, defined: &mut HashSet<T>, tables: &mut HashSet<u32>, ufs: &mut HashSet<(u32, u32, u32, u32)>) {
    use std::fmt::Write as _;
    let mut stack: Vec<(T, bool)> = roots.iter().rev().map(|t| (*t, false)).collect();
    while let Some((t, ready)) = stack.pop() {
        if defined.contains(&t) {
            continue;
        }
        let n = cx.n(t);
        if n.op == Op::Const {
            continue;
        }
        if !ready {
            stack.push((t, true));
            for x in [n.a, n.b, n.c] {
                if x != NONE && !defined.contains(&x) {
                    stack.push((x, false));
                }
            }
            continue;
        }
        defined.insert(t);
        let r = |x: T| -> String {
            let m = cx.n(x);
            if m.op == Op::Const {
                konst(m.w, m.k)
            } else {
                format!("t{}", x)
            }
        };
        if n.op == Op::Var {
            let _ = writeln!(out, "(declare-const t{} {})", t, sort(n.w));
            continue;
        }
        let aw = if n.a != NONE { cx.w(n.a) } else { 0 };
        // value of operand as bit-vector even when it is a Bool
        let bv = |x: T| -> String {
            if cx.w(x) == 1 {
                format!("(ite {} #b1 #b0)", r(x))
            } else {
                r(x)
            }
        };
        let fp = |x: T| -> String { format!("((_ to_fp {}) {})", fs(cx.w(x)), r(x)) };
        let b1 = aw == 1;
        let body = match n.op {
            Op::Not => format!("(not {})", r(n.a)),
            Op::Add => format!("(bvadd {} {})", r(n.a), r(n.b)),
            Op::Sub => format!("(bvsub {} {})", r(n.a), r(n.b)),
            Op::Mul => format!("(bvmul {} {})", r(n.a), r(n.b)),
            Op::UDiv => format!("(bvudiv {} {})", r(n.a), r(n.b)),
            Op::SDiv => format!("(bvsdiv {} {})", r(n.a), r(n.b)),
            Op::URem => format!("(bvurem {} {})", r(n.a), r(n.b)),
            Op::SRem => format!("(bvsrem {} {})", r(n.a), r(n.b)),
            Op::Shl => format!("(bvshl {} {})", r(n.a), r(n.b)),
            Op::LShr => format!("(bvlshr {} {})", r(n.a), r(n.b)),
            Op::AShr => format!("(bvashr {} {})", r(n.a), r(n.b)),
            Op::And => format!("({} {} {})", if b1 { "and" } else { "bvand" }, r(n.a), r(n.b)),
            Op::Or => format!("({} {} {})", if b1 { "or" } else { "bvor" }, r(n.a), r(n.b)),
            Op::Xor => format!("({} {} {})", if b1 { "xor" } else { "bvxor" }, r(n.a), r(n.b)),
            Op::Eq => format!("(= {} {})", r(n.a), r(n.b)),
            Op::Ult => format!("(bvult {} {})", bv(n.a), bv(n.b)),
            Op::Ule => format!("(bvule {} {})", bv(n.a), bv(n.b)),
            Op::Slt => format!("(bvslt {} {})", bv(n.a), bv(n.b)),
            Op::Sle => format!("(bvsle {} {})", bv(n.a), bv(n.b)),
            Op::SAddO | Op::UAddO | Op::SSubO => {
                let (x, o) = match n.op {
                    Op::SAddO => ("sign_extend", "bvadd"),
                    Op::UAddO => ("zero_extend", "bvadd"),
                    _ => ("sign_extend", "bvsub"),
                };
                let wide = format!("({} ((_ {} 1) {}) ((_ {} 1) {}))", o, x, r(n.a), x, r(n.b));
                let nar = format!("({} {} {})", o, r(n.a), r(n.b));
                format!("(not (= {} ((_ {} 1) {})))", wide, x, nar)
            }
            Op::SMulO | Op::UMulO => {
                let x = if n.op == Op::SMulO { "sign_extend" } else { "zero_extend" };
                let wide = format!("(bvmul ((_ {} {}) {}) ((_ {} {}) {}))", x, aw, r(n.a), x, aw, r(n.b));
                format!("(not (= {} ((_ {} {}) (bvmul {} {}))))", wide, x, aw, r(n.a), r(n.b))
            }
            Op::Ite => format!("(ite {} {} {})", r(n.a), r(n.b), r(n.c)),
            Op::ZExt => format!("((_ zero_extend {}) {})", n.w - aw, bv(n.a)),
            Op::SExt => format!("((_ sign_extend {}) {})", n.w - aw, bv(n.a)),
            Op::Extract => {
                let e = format!("((_ extract {} {}) {})", n.k as u32 + n.w - 1, n.k, r(n.a));
                if n.w == 1 {
                    format!("(= {} #b1)", e)
                } else {
                    e
                }
            }
            Op::Concat => format!("(concat {} {})", bv(n.a), bv(n.b)),
            Op::Tbl => {
                let id = n.k as u32;
                let tb = &cx.tables[id as usize];
                if tables.insert(id) {
                    // balanced decision tree on the index
                    fn tree(v: &[u128], lo: usize, hi: usize, w: u32) -> String {
                        if v[lo..hi].iter().all(|x| *x == v[lo]) {
                            return konst(w, v[lo]);
                        }
                        let mid = (lo + hi) / 2;
                        format!("(ite (bvult i #x{:016x}) {} {})", mid, tree(v, lo, mid, w), tree(v, mid, hi, w))
                    }
                    let _ = writeln!(
                        out,
                        "(define-fun tbl{} ((i (_ BitVec 64))) {} (ite (bvult i #x{:016x}) {} {}))",
                        id,
                        sort(tb.w),
                        tb.vals.len(),
                        tree(&tb.vals, 0, tb.vals.len(), tb.w),
                        konst(tb.w, 0)
                    );
                }
                format!("(tbl{} {})", id, r(n.a))
            }
            Op::FAdd | Op::FSub | Op::FMul | Op::FDiv => {
                let o = match n.op {
                    Op::FAdd => "fp.add",
                    Op::FSub => "fp.sub",
                    Op::FMul => "fp.mul",
                    _ => "fp.div",
                };
                format!("(fp.to_ieee_bv ({} RNE {} {}))", o, fp(n.a), fp(n.b))
            }
            Op::FRem => {
                // uninterpreted: the IEEE remainder differs from C fmod
                let key = (9999, aw, aw, n.w);
                if ufs.insert(key) {
                    let _ = writeln!(out, "(declare-fun frem{} ({} {}) {})", aw, sort(aw), sort(aw), sort(n.w));
                }
                format!("(frem{} {} {})", aw, r(n.a), r(n.b))
            }
            Op::FSqrt => format!("(fp.to_ieee_bv (fp.sqrt RNE {}))", fp(n.a)),
            Op::FRound => {
                let m = ["RNE", "RNA", "RTP", "RTN", "RTZ"][n.k as usize];
                format!("(fp.to_ieee_bv (fp.roundToIntegral {} {}))", m, fp(n.a))
            }
            Op::FToSI | Op::FToUI => {
                let x = fp(n.a);
                let (o, lo, hi) = if n.op == Op::FToSI {
                    ("fp.to_sbv", konst(n.w, smin(n.w) as u128 & mask(n.w)), konst(n.w, smax(n.w) as u128))
                } else {
                    ("fp.to_ubv", konst(n.w, 0), konst(n.w, mask(n.w)))
                };
                let f = fs(aw);
                // 2^(w-1) or 2^w as a float: bounds of the representable range
                let p = if n.op == Op::FToSI { n.w - 1 } else { n.w };
                let up = if aw == 32 { konst(32, (2f32.powi(p as i32)).to_bits() as u128) } else { konst(64, (2f64.powi(p as i32)).to_bits() as u128) };
                let dn = if n.op == Op::FToSI {
                    if aw == 32 { konst(32, (-(2f32.powi(p as i32))).to_bits() as u128) } else { konst(64, (-(2f64.powi(p as i32))).to_bits() as u128) }
                } else {
                    konst(aw, 0)
                };
                format!(
                    "(ite (fp.isNaN {x}) {z} (ite (fp.geq {x} ((_ to_fp {f}) {up})) {hi} (ite (fp.leq {x} ((_ to_fp {f}) {dn})) {lo} ((_ {o} {w}) RTZ {x}))))",
                    x = x, z = konst(n.w, 0), f = f, up = up, hi = hi, dn = dn, lo = lo, o = o, w = n.w
                )
            }
            Op::SIToF => format!("(fp.to_ieee_bv ((_ to_fp {}) RNE {}))", fs(n.w), bv(n.a)),
            Op::UIToF => format!("(fp.to_ieee_bv ((_ to_fp_unsigned {}) RNE {}))", fs(n.w), bv(n.a)),
            Op::FToF => format!("(fp.to_ieee_bv ((_ to_fp {}) RNE {}))", fs(n.w), fp(n.a)),
            Op::Uf => {
                let bw = if n.b == NONE { 0 } else { cx.w(n.b) };
                let key = (n.k as u32, aw, bw, n.w);
                if ufs.insert(key) {
                    let b = if bw == 0 { String::new() } else { format!(" {}", sort(bw)) };
                    let _ = writeln!(out, "(declare-fun uf{}_{}_{}_{} ({}{}) {})", n.k, aw, bw, n.w, sort(aw), b, sort(n.w));
                }
                let b = if bw == 0 { String::new() } else { format!(" {}", r(n.b)) };
                format!("(uf{}_{}_{}_{} {}{})", n.k, aw, bw, n.w, r(n.a), b)
            }
            Op::Const | Op::Var | Op::InRange => unreachable!(),
        };
        let _ = writeln!(out, "(define-fun t{} () {} {})", t, sort(n.w), body);
    }
}

fn range_constraint(cx: &Cx, v: T) -> Option<String> {
    let n = cx.n(v);
    let i = &cx.vars[n.k as usize];
    let w = i.w;
    if w == 1 {
        return None;
    }
    if i.signed {
        if i.range.slo == smin(w) && i.range.shi == smax(w) {
            return None;
        }
        Some(format!(
            "(and (bvsle {} t{v}) (bvsle t{v} {}))",
            konst(w, i.range.slo as u128 & mask(w)),
            konst(w, i.range.shi as u128 & mask(w)),
            v = v
        ))
    } else {
        if i.range.ulo == 0 && i.range.uhi == mask(w) {
            return None;
        }
        Some(format!("(and (bvule {} t{v}) (bvule t{v} {}))", konst(w, i.range.ulo), konst(w, i.range.uhi), v = v))
    }
}

fn parse_model(s: &str) -> HashMap<T, u128> {
    let mut m = HashMap::new();
    let toks: Vec<String> = s.replace('(', " ( ").replace(')', " ) ").split_whitespace().map(|x| x.to_string()).collect();
    let mut i = 0;
    while i + 1 < toks.len() {
        if let Some(d) = toks[i].strip_prefix('t') {
            if let Ok(t) = d.parse::<u32>() {
                let v = &toks[i + 1];
                let val = if let Some(h) = v.strip_prefix("#x") {
                    u128::from_str_radix(h, 16).ok()
                } else if let Some(b) = v.strip_prefix("#b") {
                    u128::from_str_radix(b, 2).ok()
                } else if v == "true" {
                    Some(1)
                } else if v == "false" {
                    Some(0)
                } else if v == "(" && toks.get(i + 2).map(|x| x == "_").unwrap_or(false) {
                    toks.get(i + 3).and_then(|x| x.strip_prefix("bv")).and_then(|x| x.parse().ok())
                } else {
                    None
                };
                if let Some(val) = val {
                    m.insert(t, val);
                }
            }
        }
        i += 1;
    }
    m
}

impl Solver {
    pub fn new() -> Solver {
        Solver {
            z3: None,
            zi: None,
            zs: None,
            cache: HashMap::new(),
            vars: HashMap::new(),
            stats: Stats::default(),
            quick_ms: 5000,
            brief: false,
            open_sat: false,
            hard_ms: 120000,
            search_ms: 2000,
            xcheck: false,
            dump: None,
            deadline: None,
        }
    }
    fn start() -> std::io::Result<Proc> {
        let mut child = Command::new("z3-new").arg("-in").stdin(Stdio::piped()).stdout(Stdio::piped()).stderr(Stdio::null()).spawn()?;
        let mut inp = child.stdin.take().unwrap();
        let out = BufReader::new(child.stdout.take().unwrap());
        inp.write_all(b"(set-option :global-declarations true)\n(set-option :print-success false)\n")?;
        Ok(Proc { child, inp, out, defined: HashSet::new(), tables: HashSet::new(), ufs: HashSet::new() })
    }
    /// ids of the variables (and, offset, uninterpreted functions) a term depends on
    pub fn vars_of(&mut self, cx: &Cx, t: T) -> Rc<Vec<u32>> {
        if let Some(v) = self.vars.get(&t) {
            return v.clone();
        }
        let mut stack = vec![(t, false)];
        while let Some((x, ready)) = stack.pop() {
            if self.vars.contains_key(&x) {
                continue;
            }
            let n = cx.n(x);
            if !ready {
                stack.push((x, true));
                for y in [n.a, n.b, n.c] {
                    if y != NONE && !self.vars.contains_key(&y) {
                        stack.push((y, false));
                    }
                }
                continue;
            }
            let mut v: Vec<u32> = vec![];
            if n.op == Op::Var {
                v.push(x);
            } else {
                let mut kids = vec![];
                for y in [n.a, n.b, n.c] {
                    if y != NONE {
                        kids.push(self.vars[&y].clone());
                    }
                }
                if n.op == Op::Uf {
                    v.push(0x8000_0000 + n.k as u32);
                } else if n.op == Op::FRem {
                    v.push(0x9000_0000);
                } else if let Some(k) = kids.iter().max_by_key(|k| k.len()) {
                    if kids.iter().all(|o| Rc::ptr_eq(o, k) || o.iter().all(|e| k.binary_search(e).is_ok())) {
                        let k = k.clone();
                        self.vars.insert(x, k);
                        continue;
                    }
                }
                for k in kids {
                    v.extend(k.iter());
                }
                v.sort();
                v.dedup();
            }
            self.vars.insert(x, Rc::new(v));
        }
        self.vars[&t].clone()
    }
    /// is pc && extra satisfiable?  Only the constraints connected with `extra` are sent.
    pub fn check(&mut self, cx: &Cx, pc: &[T], extra: &[T]) -> Ans {
        // slice
        let mut vs: HashSet<u32> = HashSet::new();
        let mut sel: Vec<T> = vec![];
        for e in extra {
            match cx.cval(*e) {
                Some(1) => continue,
                Some(_) => return Ans::Unsat,
                None => {}
            }
            sel.push(*e);
            vs.extend(self.vars_of(cx, *e).iter());
        }
        let mut rest: Vec<(T, Rc<Vec<u32>>)> = vec![];
        for p in pc {
            rest.push((*p, self.vars_of(cx, *p)));
        }
        loop {
            let mut changed = false;
            let mut i = 0;
            while i < rest.len() {
                if rest[i].1.iter().any(|v| vs.contains(v)) {
                    let (t, v) = rest.swap_remove(i);
                    vs.extend(v.iter());
                    sel.push(t);
                    changed = true;
                } else {
                    i += 1;
                }
            }
            if !changed {
                break;
            }
        }
        sel.sort();
        sel.dedup();
        // a constraint next to its own negation
        for e in &sel {
            let n = cx.n(*e);
            if n.op == Op::Not && sel.binary_search(&n.a).is_ok() {
                return Ans::Unsat;
            }
        }
        if sel.is_empty() {
            return Ans::Sat(Rc::new(HashMap::new()));
        }
        if let Some(a) = self.cache.get(&sel) {
            self.stats.cache_hits += 1;
            return a.clone();
        }
        let vars: Vec<T> = vs.iter().copied().filter(|v| *v < 0x8000_0000).collect();
        let t0 = Instant::now();
        let long = self.quick_ms;
        let mut a = Ans::Unknown;
        let mut how = "z3 int";
        let first = self.suits_int(cx, &sel);
        if first {
            a = self.int_query(cx, &sel, &vars, 100, true);
            if let Ans::Unknown = a {
                if std::env::var("IRSYM_MISS").is_ok() {
                    eprintln!("stacked missed after {:?}", t0.elapsed());
                    let _ = std::fs::write(format!("/tmp/slow-{}-{}i.smt2", std::process::id(), self.stats.queries), self.int_script(cx, &sel, &vars).0);
                }
                if self.brief {
                    self.stats.time += t0.elapsed().as_secs_f64();
                    return Ans::Unknown;
                }
                if !self.open_sat {
                    a = self.int_query(cx, &sel, &vars, 1000, false);
                }
            }
        }
        if let Ans::Unknown = a {
            self.quick_ms = if self.brief { 150 } else { 400 };
            a = self.z3_query(cx, &sel, &vars);
            self.quick_ms = long;
            how = "z3 bv";
            if self.brief && matches!(a, Ans::Unknown) {
                self.stats.time += t0.elapsed().as_secs_f64();
                return a;
            }
            if std::env::var("IRSYM_MISS").is_ok() {
                eprintln!("first {} {:?}", first, t0.elapsed());
            }
        }
        if let (Ans::Unknown, false) = (&a, first && self.open_sat) {
            a = self.int_query(cx, &sel, &vars, 3000, false);
            how = "z3 int (long)";
        }
        if let Ans::Unknown = a {
            a = self.z3_query(cx, &sel, &vars);
            how = "z3 bv (long)";
        }
        if let Ans::Unknown = a {
            a = self.local_search(cx, &sel, &vars);
            how = "local search";
        }
        if let Ans::Unknown = a {
            self.stats.hard += 1;
            how = "portfolio";
            a = self.portfolio(cx, &sel, &vars);
        }
        let dt = t0.elapsed().as_secs_f64();
        if std::env::var("IRSYM_MISS").is_ok() {
            eprintln!("q {} {} {:.4} {}", how, sel.len(), dt, matches!(a, Ans::Sat(_)));
        }
        self.stats.queries += 1;
        self.stats.time += dt;
        if dt > self.stats.max_time {
            self.stats.max_time = dt;
        }
        match a {
            Ans::Sat(_) => self.stats.sat += 1,
            Ans::Unsat => self.stats.unsat += 1,
            Ans::Unknown => self.stats.unknown += 1,
        }
        if std::env::var("IRSYM_SLOW").is_ok() && dt > 1.0 {
            let f = format!("/tmp/slow-{}-{}.smt2", std::process::id(), self.stats.queries);
            let _ = std::fs::write(&f, self.script(cx, &sel, &vars));
            eprintln!("slow query {:.2}s {} {:?} -> {}", dt, how, matches!(a, Ans::Sat(_)), f);
            let _ = std::fs::write(format!("/tmp/slow-{}-{}i.smt2", std::process::id(), self.stats.queries), self.int_script(cx, &sel, &vars).0);
        }
        self.cache.insert(sel, a.clone());
        a
    }
    /// Look for a model of the constraints by changing one variable at a time; every candidate is
    /// judged by evaluating the terms, so only a true model is ever returned (never `Unsat`).
    fn local_search(&self, cx: &Cx, sel: &[T], vars: &[T]) -> Ans {
        if vars.is_empty() {
            return Ans::Unknown;
        }
        let t0 = Instant::now();
        let mut seed = 0x9e37_79b9_7f4a_7c15u64;
        let mut rnd = move || {
            seed ^= seed << 13;
            seed ^= seed >> 7;
            seed ^= seed << 17;
            seed
        };
        let mut vars = vars.to_vec();
        vars.sort();
        // the constants of the constraints
        let mut consts: Vec<u128> = vec![0, 1];
        let mut seen: HashSet<T> = HashSet::new();
        let mut stack = sel.to_vec();
        while let Some(x) = stack.pop() {
            if !seen.insert(x) {
                continue;
            }
            let n = cx.n(x);
            if n.op == Op::Uf {
                return Ans::Unknown;
            }
            if n.op == Op::Const {
                consts.push(n.k);
                let i = crate::term::sx(n.k, n.w);
                if i < 0 {
                    consts.push(i.unsigned_abs());
                }
                if n.w == 64 {
                    let d = f64::from_bits(n.k as u64);
                    if d.abs() >= 1.0 && d.abs() < 1e19 {
                        consts.push(d.abs() as u128);
                    }
                } else if n.w == 32 {
                    let d = f32::from_bits(n.k as u32);
                    if d.abs() >= 1.0 && d.abs() < 1e19 {
                        consts.push(d.abs() as u128);
                    }
                }
            }
            for y in [n.a, n.b, n.c] {
                if y != NONE {
                    stack.push(y);
                }
            }
        }
        consts.sort();
        consts.dedup();
        let legal = |v: T, x: u128| -> Option<u128> {
            let n = cx.n(v);
            let x = x & mask(n.w);
            let i = &cx.vars[n.k as usize];
            if i.signed {
                let s = sx(x, n.w);
                (i.range.slo <= s && s <= i.range.shi).then_some(x)
            } else {
                (i.range.ulo <= x && x <= i.range.uhi).then_some(x)
            }
        };
        let low = |v: T| -> u128 {
            let i = &cx.vars[cx.n(v).k as usize];
            if i.signed { i.range.slo as u128 & mask(i.w) } else { i.range.ulo }
        };
        let high = |v: T| -> u128 {
            let i = &cx.vars[cx.n(v).k as usize];
            if i.signed { i.range.shi as u128 & mask(i.w) } else { i.range.uhi }
        };
        let score = |m: &HashMap<T, u128>| -> usize {
            let mut memo = HashMap::new();
            sel.iter().filter(|t| cx.eval(**t, m, &mut memo) == Some(1)).count()
        };
        let mut m: HashMap<T, u128> = HashMap::new();
        for v in &vars {
            let z = legal(*v, 0).unwrap_or(low(*v));
            m.insert(*v, z);
        }
        let mut best = score(&m);
        let mut since = 0;
        while best < sel.len() {
            if t0.elapsed() > Duration::from_millis(self.search_ms) {
                return Ans::Unknown;
            }
            if since > 2000 {
                for v in &vars {
                    let x = ((rnd() as u128) << 64) | rnd() as u128;
                    m.insert(*v, legal(*v, x).unwrap_or(if x & 1 == 0 { low(*v) } else { high(*v) }));
                }
                best = score(&m);
                since = 0;
                continue;
            }
            since += 1;
            let v = vars[(rnd() % vars.len() as u64) as usize];
            let w = cx.w(v);
            let old = m[&v];
            let c = consts[(rnd() % consts.len() as u64) as usize];
            let p = 1u128 << (rnd() % w.min(127) as u64);
            let small = (rnd() as u128) % p;
            let x = match rnd() % 10 {
                0 => low(v),
                1 => high(v),
                2 => c,
                3 => c.wrapping_neg(),
                4 => old.wrapping_add(small),
                5 => old.wrapping_sub(small),
                6 => old ^ p,
                7 => ((rnd() as u128) << 64) | rnd() as u128,
                8 => low(v).wrapping_add(small),
                // near a multiple of a constant
                _ => {
                    let top = mask(w) / c.max(1) / 2;
                    let k = if top == 0 { 0 } else { rnd() as u128 % (1 << (rnd() % 40)) % (top + 1) };
                    c.wrapping_mul(k)
                }
            };
            let x = match rnd() % 4 {
                0 => x.wrapping_sub(1),
                1 => x.wrapping_add(1),
                2 if rnd() % 2 == 0 => x.wrapping_sub(small),
                _ => x,
            };
            if let Some(x) = legal(v, x) {
                m.insert(v, x);
                let s = score(&m);
                if s >= best {
                    if s > best {
                        since = 0;
                    }
                    best = s;
                } else {
                    m.insert(v, old);
                }
            }
        }
        Ans::Sat(Rc::new(m))
    }
    fn script(&self, cx: &Cx, sel: &[T], vars: &[T]) -> String {
        let mut s = String::new();
        let (mut d, mut tb, mut uf) = (HashSet::new(), HashSet::new(), HashSet::new());
        s.push_str("(set-logic ALL)\n(set-option :produce-models true)\n");
        let mut roots = sel.to_vec();
        roots.extend_from_slice(vars);
        emit(cx, &roots, &mut s, &mut d, &mut tb, &mut uf);
        for v in vars {
            if let Some(c) = range_constraint(cx, *v) {
                s.push_str(&format!("(assert {})\n", c));
            }
        }
        for t in sel {
            s.push_str(&format!("(assert t{})\n", t));
        }
        s.push_str("(check-sat)\n");
        s
    }
    fn z3_query(&mut self, cx: &Cx, sel: &[T], vars: &[T]) -> Ans {
        if self.z3.is_none() {
            match Solver::start() {
                Ok(p) => self.z3 = Some(p),
                Err(_) => return Ans::Unknown,
            }
        }
        let p = self.z3.as_mut().unwrap();
        let mut s = String::new();
        let mut roots = sel.to_vec();
        roots.extend_from_slice(vars);
        emit(cx, &roots, &mut s, &mut p.defined, &mut p.tables, &mut p.ufs);
        s.push_str(&format!("(push 1)\n(set-option :timeout {})\n", self.quick_ms));
        for v in vars {
            if let Some(c) = range_constraint(cx, *v) {
                s.push_str(&format!("(assert {})\n", c));
            }
        }
        for t in sel {
            s.push_str(&format!("(assert t{})\n", t));
        }
        s.push_str("(check-sat)\n");
        if let Some(f) = &self.dump {
            use std::fs::OpenOptions;
            if let Ok(mut fh) = OpenOptions::new().append(true).create(true).open(f) {
                let _ = fh.write_all(s.as_bytes());
            }
        }
        let mut line = String::new();
        let ok = p.inp.write_all(s.as_bytes()).is_ok() && p.inp.flush().is_ok() && p.out.read_line(&mut line).is_ok();
        let r = line.trim().to_string();
        if !ok || !(r == "sat" || r == "unsat" || r == "unknown" || r == "timeout") {
            if std::env::var("IRSYM_DEBUG").is_ok() {
                eprintln!("z3 said: {}\n{}", r, s);
            }
            if let Some(mut q) = self.z3.take() {
                let _ = q.child.kill();
                let _ = q.child.wait();
            }
            return Ans::Unknown;
        }
        let mut ans = Ans::Unknown;
        if r == "unsat" {
            ans = Ans::Unsat;
        } else if r == "sat" {
            if vars.is_empty() {
                ans = Ans::Sat(Rc::new(HashMap::new()));
            } else {
                let q = format!("(get-value ({}))\n", vars.iter().map(|v| format!("t{}", v)).collect::<Vec<_>>().join(" "));
                let _ = p.inp.write_all(q.as_bytes());
                let _ = p.inp.flush();
                let mut txt = String::new();
                let mut depth = 0i32;
                loop {
                    let mut l = String::new();
                    if p.out.read_line(&mut l).unwrap_or(0) == 0 {
                        break;
                    }
                    depth += l.matches('(').count() as i32 - l.matches(')').count() as i32;
                    txt.push_str(&l);
                    if depth <= 0 {
                        break;
                    }
                }
                let m = parse_model(&txt);
                if m.len() >= vars.len() {
                    ans = Ans::Sat(Rc::new(m));
                }
            }
        }
        let _ = p.inp.write_all(b"(pop 1)\n");
        ans
    }
    /// wide sums or products with overflow tests and nothing bit-level
    fn suits_int(&mut self, cx: &Cx, sel: &[T]) -> bool {
        let mut seen = HashSet::new();
        let mut stack = sel.to_vec();
        let mut hits = 0;
        while let Some(t) = stack.pop() {
            if !seen.insert(t) || seen.len() > 400 {
                continue;
            }
            let n = cx.n(t);
            match n.op {
                Op::SMulO | Op::UMulO | Op::Mul | Op::SDiv | Op::UDiv | Op::URem | Op::SRem if cx.w(n.a) >= 32 => {
                    if cx.cval(n.b).is_none() {
                        return false;
                    }
                    hits += 1
                }
                Op::Xor if cx.cval(n.b) == Some(mask(n.w)) => {}
                Op::Xor | Op::Or | Op::And | Op::Shl | Op::LShr | Op::AShr if n.w > 1 => return false,
                Op::FAdd | Op::FSub | Op::FMul | Op::FDiv | Op::FRem | Op::FSqrt | Op::FRound | Op::FToSI | Op::FToUI | Op::SIToF | Op::UIToF | Op::FToF | Op::Uf => return false,
                _ => {}
            }
            for x in [n.a, n.b, n.c] {
                if x != NONE {
                    stack.push(x);
                }
            }
        }
        hits > 0
    }
    /// the query in integer arithmetic; second component: how many terms had to be left open
    fn int_script(&self, cx: &Cx, sel: &[T], vars: &[T]) -> (String, u32, Vec<T>) {
        let mut l = crate::lia::Lia::new(cx);
        l.prepare(sel);
        let mut asserts = String::new();
        for t in sel {
            let b = l.b(*t);
            asserts.push_str(&format!("(assert {})\n", b));
        }
        let known: Vec<T> = vars.iter().copied().filter(|v| l.declared(*v)).collect();
        let mut s = std::mem::take(&mut l.out);
        s.push_str(&asserts);
        s.push_str("(check-sat)\n");
        (s, l.abstracted, known)
    }
    fn int_model(&self, cx: &Cx, sel: &[T], txt: &str) -> Ans {
        let m = crate::lia::parse_model(cx, txt);
        let mut memo = HashMap::new();
        if sel.iter().all(|t| cx.eval(*t, &m, &mut memo) == Some(1)) {
            Ans::Sat(Rc::new(m))
        } else {
            Ans::Unknown
        }
    }
    fn int_query(&mut self, cx: &Cx, sel: &[T], vars: &[T], ms: u64, stacked: bool) -> Ans {
        let zi = if stacked { &mut self.zs } else { &mut self.zi };
        if zi.is_none() {
            match Solver::start() {
                Ok(mut p) => {
                    let _ = p.inp.write_all(b"(set-option :global-declarations false)\n");
                    *zi = Some(p)
                }
                Err(_) => return Ans::Unknown,
            }
        }
        self.open_sat = false;
        let (s, _, known) = self.int_script(cx, sel, vars);
        let zi = if stacked { &mut self.zs } else { &mut self.zi };
        let p = zi.as_mut().unwrap();
        let mut line = String::new();
        // a fresh context is stronger, a new scope of the old one much quicker
        let q = format!("{}(set-option :timeout {})\n{}", if stacked { "(push 1)\n" } else { "(reset)\n" }, ms, s);
        let ok = p.inp.write_all(q.as_bytes()).is_ok() && p.inp.flush().is_ok() && p.out.read_line(&mut line).is_ok();
        let r = line.trim().to_string();
        if !ok || !(r == "sat" || r == "unsat" || r == "unknown" || r == "timeout") {
            if std::env::var("IRSYM_DEBUG").is_ok() {
                eprintln!("z3 (int) said: {}\n{}", r, s);
            }
            if let Some(mut q) = zi.take() {
                let _ = q.child.kill();
                let _ = q.child.wait();
            }
            return Ans::Unknown;
        }
        let mut txt = String::new();
        if r == "sat" && !known.is_empty() {
            let q = format!("(get-value ({}))\n", known.iter().map(|v| format!("v{}", v)).collect::<Vec<_>>().join(" "));
            let _ = p.inp.write_all(q.as_bytes());
            let _ = p.inp.flush();
            let mut depth = 0i32;
            loop {
                let mut l = String::new();
                if p.out.read_line(&mut l).unwrap_or(0) == 0 {
                    break;
                }
                depth += l.matches('(').count() as i32 - l.matches(')').count() as i32;
                txt.push_str(&l);
                if depth <= 0 {
                    break;
                }
            }
        }
        if stacked {
            let _ = p.inp.write_all(b"(pop 1)\n");
        }
        match r.as_str() {
            "unsat" => Ans::Unsat,
            "sat" => {
                let a = self.int_model(cx, sel, &txt);
                self.open_sat = matches!(a, Ans::Unknown);
                a
            }
            _ => Ans::Unknown,
        }
    }
    fn portfolio(&mut self, cx: &Cx, sel: &[T], vars: &[T]) -> Ans {
        let base = self.script(cx, sel, vars);
        let gv = if vars.is_empty() {
            String::new()
        } else {
            format!("(get-value ({}))\n", vars.iter().map(|v| format!("t{}", v)).collect::<Vec<_>>().join(" "))
        };
        let mut ms = self.hard_ms;
        if let Some(d) = self.deadline {
            ms = ms.min(d.saturating_duration_since(Instant::now()).as_millis() as u64);
        }
        let uses_fp = base.contains("to_ieee_bv");
        let dir = std::env::temp_dir().join(format!("irsym-{}-{}", std::process::id(), self.stats.hard));
        let _ = std::fs::create_dir_all(&dir);
        let f = dir.join("q.smt2");
        let _ = std::fs::write(&f, format!("{}{}", base, gv));
        let fz = dir.join("z.smt2");
        let _ = std::fs::write(&fz, format!("{}{}", base.replace("(set-logic ALL)\n", ""), gv));
        let mut cmds: Vec<Vec<String>> = vec![vec!["z3-new".into(), fz.display().to_string()]];
        let (is, _, iknown) = self.int_script(cx, sel, vars);
        let igv = if iknown.is_empty() { String::new() } else { format!("(get-value ({}))\n", iknown.iter().map(|v| format!("v{}", v)).collect::<Vec<_>>().join(" ")) };
        let fi = dir.join("i.smt2");
        let _ = std::fs::write(&fi, format!("(set-logic ALL)\n(set-option :produce-models true)\n{}{}", is, igv));
        cmds.push(vec!["z3-new".into(), fi.display().to_string()]);
        cmds.push(vec!["cvc5".into(), fi.display().to_string()]);
        if !uses_fp {
            cmds.push(vec!["cvc5".into(), f.display().to_string()]);
            cmds.push(vec!["cvc5".into(), "--solve-bv-as-int=sum".into(), "--nl-ext-tplanes".into(), f.display().to_string()]);
        }
        let mut kids: Vec<(usize, Child)> = vec![];
        for (i, c) in cmds.iter().enumerate() {
            let o = std::fs::File::create(dir.join(format!("out{}", i))).unwrap();
            if let Ok(ch) = Command::new(&c[0]).args(&c[1..]).stdin(Stdio::null()).stdout(o).stderr(Stdio::null()).spawn() {
                kids.push((i, ch));
            }
        }
        let t0 = Instant::now();
        let mut ans = Ans::Unknown;
        while !kids.is_empty() && t0.elapsed() < Duration::from_millis(ms) {
            let mut done = vec![];
            for (k, (i, ch)) in kids.iter_mut().enumerate() {
                if let Ok(Some(_)) = ch.try_wait() {
                    done.push((k, *i));
                }
            }
            let mut found = false;
            for (k, i) in done.into_iter().rev() {
                kids.remove(k);
                let o = std::fs::read_to_string(dir.join(format!("out{}", i))).unwrap_or_default();
                let first = o.lines().next().unwrap_or("").trim().to_string();
                if first == "unsat" {
                    ans = Ans::Unsat;
                    found = true;
                } else if first == "sat" && (i == 1 || i == 2) {
                    ans = self.int_model(cx, sel, &o);
                    found = matches!(ans, Ans::Sat(_));
                } else if first == "sat" {
                    let m = parse_model(&o);
                    if m.len() >= vars.len() {
                        ans = Ans::Sat(Rc::new(m));
                        found = true;
                    }
                }
                if found {
                    if std::env::var("IRSYM_DEBUG").is_ok() {
                        eprintln!("portfolio: {:?} answered after {:?}", cmds[i], t0.elapsed());
                    }
                    break;
                }
            }
            if found {
                break;
            }
            std::thread::sleep(Duration::from_millis(5));
        }
        for (_, mut ch) in kids {
            let _ = ch.kill();
            let _ = ch.wait();
        }
        let _ = std::fs::remove_dir_all(&dir);
        ans
    }
    /// independent confirmation of an unsat verdict by cvc5 (None: no answer)
    pub fn confirm_unsat(&mut self, cx: &Cx, pc: &[T], extra: &[T], ms: u64) -> Option<bool> {
        let mut all = pc.to_vec();
        all.extend_from_slice(extra);
        let mut vs: HashSet<u32> = HashSet::new();
        for t in &all {
            vs.extend(self.vars_of(cx, *t).iter());
        }
        let vars: Vec<T> = vs.into_iter().filter(|v| *v < 0x8000_0000).collect();
        let all: Vec<T> = all.into_iter().filter(|t| cx.cval(*t) != Some(1)).collect();
        if all.iter().any(|t| cx.cval(*t) == Some(0)) {
            return Some(true);
        }
        let base = self.script(cx, &all, &vars);
        if base.contains("to_ieee_bv") {
            return None;
        }
        let mut ch = Command::new("cvc5").arg(format!("--tlimit={}", ms)).arg("-").stdin(Stdio::piped()).stdout(Stdio::piped()).stderr(Stdio::null()).spawn().ok()?;
        ch.stdin.take().unwrap().write_all(base.as_bytes()).ok()?;
        let o = ch.wait_with_output().ok()?;
        self.stats.xchecks += 1;
        match String::from_utf8_lossy(&o.stdout).lines().next().unwrap_or("").trim() {
            "unsat" => Some(true),
            "sat" => Some(false),
            _ => None,
        }
    }
}
impl Drop for Solver {
    fn drop(&mut self) {
        for p in [self.z3.take(), self.zi.take(), self.zs.take()] {
            if let Some(mut p) = p {
                let _ = p.child.kill();
                let _ = p.child.wait();
            }
        }
    }
}
