//! Hash-consed bit-vector terms with constant folding, local simplification and interval analysis.
//! Floating-point values are terms too: they are represented by their IEEE-754 bit pattern.
use std::collections::HashMap;

pub type T = u32;

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub enum Op {
    Const,
    Var,
    /// always-true side condition "variable a lies in its declared range"
    InRange,
    Not, // width 1 only
    Add,
    Sub,
    Mul,
    UDiv,
    SDiv,
    URem,
    SRem,
    Shl,
    LShr,
    AShr,
    And,
    Or,
    Xor,
    Eq,
    Ult,
    Ule,
    Slt,
    Sle,
    SAddO,
    UAddO,
    SSubO,
    SMulO,
    UMulO,
    Ite,
    ZExt,
    SExt,
    Extract, // k = low bit
    Concat,  // a = high part, b = low part
    Tbl,     // k = table id, a = index (64 bit)
    FAdd,
    FSub,
    FMul,
    FDiv,
    FRem,
    FSqrt,
    FRound, // k: 0 RNE 1 RNA 2 RTP 3 RTN 4 RTZ
    FToSI,  // saturating, NaN -> 0
    FToUI,
    SIToF,
    UIToF,
    FToF,
    Uf, // k = function id, a, b (b may be NONE)
}
use Op::*;

pub const NONE: T = u32::MAX;

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub struct Node {
    pub op: Op,
    pub w: u32,
    pub a: T,
    pub b: T,
    pub c: T,
    pub k: u128,
}

#[derive(Clone, Copy, Debug)]
pub struct Range {
    pub ulo: u128,
    pub uhi: u128,
    pub slo: i128,
    pub shi: i128,
}

#[derive(Clone, Debug)]
pub struct VarInfo {
    pub name: String,
    pub w: u32,
    pub signed: bool,
    pub range: Range,
}

pub struct Table {
    pub w: u32,
    pub vals: Vec<u128>,
}

pub struct Cx {
    pub nodes: Vec<Node>,
    pub range: Vec<Range>,
    map: HashMap<Node, T>,
    pub vars: Vec<VarInfo>,
    var_map: HashMap<(String, u32, bool, u128, u128), T>,
    pub tables: Vec<Table>,
    tbl_map: HashMap<(u32, Vec<u128>), u32>,
    pub ufs: Vec<String>,
    pub lin_memo: HashMap<(T, bool), Option<std::rc::Rc<crate::lin::Lin>>>,
}

pub fn mask(w: u32) -> u128 {
    if w >= 128 {
        u128::MAX
    } else {
        (1u128 << w) - 1
    }
}
pub fn sx(v: u128, w: u32) -> i128 {
    if w >= 128 {
        v as i128
    } else {
        let s = 128 - w;
        ((v << s) as i128) >> s
    }
}
pub fn smin(w: u32) -> i128 {
    if w >= 128 {
        i128::MIN
    } else {
        -(1i128 << (w - 1))
    }
}
pub fn smax(w: u32) -> i128 {
    if w >= 128 {
        i128::MAX
    } else {
        (1i128 << (w - 1)) - 1
    }
}
pub fn full(w: u32) -> Range {
    Range { ulo: 0, uhi: mask(w), slo: smin(w), shi: smax(w) }
}
/// derive the missing half of a range from the other one
pub fn from_u(lo: u128, hi: u128, w: u32) -> Range {
    let half = smax(w) as u128;
    if hi <= half {
        Range { ulo: lo, uhi: hi, slo: lo as i128, shi: hi as i128 }
    } else if lo > half {
        Range { ulo: lo, uhi: hi, slo: sx(lo, w), shi: sx(hi, w) }
    } else {
        Range { ulo: lo, uhi: hi, slo: smin(w), shi: smax(w) }
    }
}
pub fn from_s(lo: i128, hi: i128, w: u32) -> Range {
    if lo >= 0 || hi < 0 {
        Range { ulo: lo as u128 & mask(w), uhi: hi as u128 & mask(w), slo: lo, shi: hi }
    } else {
        Range { ulo: 0, uhi: mask(w), slo: lo, shi: hi }
    }
}
fn meet(a: Range, b: Range) -> Range {
    Range { ulo: a.ulo.max(b.ulo), uhi: a.uhi.min(b.uhi), slo: a.slo.max(b.slo), shi: a.shi.min(b.shi) }
}

// ---- concrete floating point helpers (on bit patterns) ----
fn f(w: u32, v: u128) -> f64 {
    if w == 32 {
        f32::from_bits(v as u32) as f64
    } else {
        f64::from_bits(v as u64)
    }
}
pub fn feval(op: Op, w: u32, aw: u32, k: u128, a: u128, b: u128) -> Option<u128> {
    macro_rules! ar {
        ($o:tt) => {
            if w == 32 {
                (f32::from_bits(a as u32) $o f32::from_bits(b as u32)).to_bits() as u128
            } else {
                (f64::from_bits(a as u64) $o f64::from_bits(b as u64)).to_bits() as u128
            }
        };
    }
    Some(match op {
        FAdd => ar!(+),
        FSub => ar!(-),
        FMul => ar!(*),
        FDiv => ar!(/),
        FRem => ar!(%),
        FSqrt => {
            if w == 32 {
                f32::from_bits(a as u32).sqrt().to_bits() as u128
            } else {
                f64::from_bits(a as u64).sqrt().to_bits() as u128
            }
        }
        FRound => {
            macro_rules! r {
                ($x:expr) => {{
                    let x = $x;
                    (match k {
                        0 => x.round_ties_even(),
                        1 => x.round(),
                        2 => x.ceil(),
                        3 => x.floor(),
                        _ => x.trunc(),
                    })
                    .to_bits() as u128
                }};
            }
            if w == 32 {
                r!(f32::from_bits(a as u32))
            } else {
                r!(f64::from_bits(a as u64))
            }
        }
        FToSI => {
            let x = f(aw, a);
            if x.is_nan() {
                0
            } else if w == 128 {
                x as i128 as u128
            } else {
                ((x as i128).clamp(smin(w), smax(w))) as u128 & mask(w)
            }
        }
        FToUI => {
            let x = f(aw, a);
            if x.is_nan() {
                0
            } else if w == 128 {
                x as u128
            } else {
                (x as u128).min(mask(w))
            }
        }
        SIToF => {
            let v = sx(a, aw);
            if w == 32 {
                (v as f32).to_bits() as u128
            } else {
                (v as f64).to_bits() as u128
            }
        }
        UIToF => {
            if w == 32 {
                (a as f32).to_bits() as u128
            } else {
                (a as f64).to_bits() as u128
            }
        }
        FToF => {
            if w == aw {
                a
            } else if w == 32 {
                (f64::from_bits(a as u64) as f32).to_bits() as u128
            } else {
                (f32::from_bits(a as u32) as f64).to_bits() as u128
            }
        }
        _ => return None,
    })
}

impl Cx {
    pub fn new() -> Cx {
        Cx {
            nodes: vec![],
            range: vec![],
            map: HashMap::new(),
            vars: vec![],
            var_map: HashMap::new(),
            tables: vec![],
            tbl_map: HashMap::new(),
            ufs: vec![],
            lin_memo: HashMap::new(),
        }
    }
    #[inline]
    pub fn n(&self, t: T) -> Node {
        self.nodes[t as usize]
    }
    #[inline]
    pub fn w(&self, t: T) -> u32 {
        self.nodes[t as usize].w
    }
    #[inline]
    pub fn r(&self, t: T) -> Range {
        self.range[t as usize]
    }
    #[inline]
    pub fn cval(&self, t: T) -> Option<u128> {
        let n = &self.nodes[t as usize];
        if n.op == Const {
            Some(n.k)
        } else {
            None
        }
    }
    fn mk(&mut self, n: Node) -> T {
        if let Some(&t) = self.map.get(&n) {
            return t;
        }
        let t = self.nodes.len() as T;
        let r = self.compute_range(&n);
        if n.op != Const && n.op != Var && n.op != InRange && r.ulo == r.uhi {
            let c = self.konst(n.w, r.ulo);
            self.map.insert(n, c);
            return c;
        }
        self.nodes.push(n);
        self.range.push(r);
        self.map.insert(n, t);
        t
    }
    pub fn konst(&mut self, w: u32, v: u128) -> T {
        let v = v & mask(w);
        self.mk(Node { op: Const, w, a: NONE, b: NONE, c: NONE, k: v })
    }
    pub fn tru(&mut self) -> T {
        self.konst(1, 1)
    }
    pub fn fls(&mut self) -> T {
        self.konst(1, 0)
    }
    pub fn var(&mut self, name: &str, w: u32, signed: bool, lo: u128, hi: u128) -> T {
        let key = (name.to_string(), w, signed, lo, hi);
        if let Some(&t) = self.var_map.get(&key) {
            return t;
        }
        let r = if signed { from_s(sx(lo, w), sx(hi, w), w) } else { from_u(lo, hi, w) };
        let id = self.vars.len();
        self.vars.push(VarInfo { name: format!("{}_{}", name, id), w, signed, range: r });
        let n = Node { op: Var, w, a: NONE, b: NONE, c: NONE, k: id as u128 };
        let t = self.nodes.len() as T;
        self.nodes.push(n);
        self.range.push(r);
        self.map.insert(n, t);
        self.var_map.insert(key, t);
        t
    }
    pub fn in_range(&mut self, v: T) -> T {
        self.mk(Node { op: InRange, w: 1, a: v, b: NONE, c: NONE, k: 0 })
    }
    pub fn uf_id(&mut self, name: &str) -> u32 {
        if let Some(i) = self.ufs.iter().position(|x| x == name) {
            return i as u32;
        }
        self.ufs.push(name.to_string());
        (self.ufs.len() - 1) as u32
    }
    pub fn uf(&mut self, name: &str, w: u32, a: T, b: T) -> T {
        let id = self.uf_id(name);
        self.mk(Node { op: Uf, w, a, b, c: NONE, k: id as u128 })
    }

    fn compute_range(&self, n: &Node) -> Range {
        let w = n.w;
        let fl = full(w);
        match n.op {
            Const => {
                let s = sx(n.k, w);
                Range { ulo: n.k, uhi: n.k, slo: s, shi: s }
            }
            Add => {
                let (a, b) = (self.r(n.a), self.r(n.b));
                let mut r = fl;
                if let Some(h) = a.uhi.checked_add(b.uhi) {
                    if h <= mask(w) {
                        r = meet(r, from_u(a.ulo + b.ulo, h, w));
                    }
                }
                if let (Some(l), Some(h)) = (a.slo.checked_add(b.slo), a.shi.checked_add(b.shi)) {
                    if l >= smin(w) && h <= smax(w) {
                        r = meet(r, from_s(l, h, w));
                    }
                }
                r
            }
            Sub => {
                let (a, b) = (self.r(n.a), self.r(n.b));
                let mut r = fl;
                if a.ulo >= b.uhi {
                    r = meet(r, from_u(a.ulo - b.uhi, a.uhi - b.ulo, w));
                }
                if let (Some(l), Some(h)) = (a.slo.checked_sub(b.shi), a.shi.checked_sub(b.slo)) {
                    if l >= smin(w) && h <= smax(w) {
                        r = meet(r, from_s(l, h, w));
                    }
                }
                r
            }
            Mul => {
                let (a, b) = (self.r(n.a), self.r(n.b));
                let mut r = fl;
                if let Some(h) = a.uhi.checked_mul(b.uhi) {
                    if h <= mask(w) {
                        r = meet(r, from_u(a.ulo.saturating_mul(b.ulo), h, w));
                    }
                }
                let ps = [
                    a.slo.checked_mul(b.slo),
                    a.slo.checked_mul(b.shi),
                    a.shi.checked_mul(b.slo),
                    a.shi.checked_mul(b.shi),
                ];
                if ps.iter().all(|p| p.is_some()) {
                    let l = ps.iter().map(|p| p.unwrap()).min().unwrap();
                    let h = ps.iter().map(|p| p.unwrap()).max().unwrap();
                    if l >= smin(w) && h <= smax(w) {
                        r = meet(r, from_s(l, h, w));
                    }
                }
                r
            }
            UDiv => {
                let (a, b) = (self.r(n.a), self.r(n.b));
                if b.ulo > 0 {
                    from_u(a.ulo / b.uhi, a.uhi / b.ulo, w)
                } else {
                    fl
                }
            }
            URem => {
                let (a, b) = (self.r(n.a), self.r(n.b));
                if b.ulo > 0 {
                    if a.uhi < b.ulo {
                        a
                    } else {
                        from_u(0, (b.uhi - 1).min(a.uhi), w)
                    }
                } else {
                    fl
                }
            }
            SDiv => {
                let (a, b) = (self.r(n.a), self.r(n.b));
                if b.slo > 0 && b.slo == b.shi {
                    from_s(a.slo / b.slo, a.shi / b.slo, w)
                } else if b.slo > 0 {
                    let m = a.slo.unsigned_abs().max(a.shi.unsigned_abs()).min(i128::MAX as u128) as i128;
                    from_s(if a.slo < 0 { -m } else { 0 }, if a.shi > 0 { m } else { 0 }, w)
                } else {
                    fl
                }
            }
            SRem => {
                let (a, b) = (self.r(n.a), self.r(n.b));
                if b.slo > 0 && b.slo == b.shi {
                    let m = b.slo - 1;
                    from_s(if a.slo < 0 { -m.min(a.slo.checked_neg().unwrap_or(i128::MAX)) } else { 0 }, if a.shi > 0 { m.min(a.shi) } else { 0 }, w)
                } else {
                    fl
                }
            }
            AShr => {
                let a = self.r(n.a);
                match self.cval(n.b) {
                    Some(k) if k < w as u128 => from_s(a.slo >> k, a.shi >> k, w),
                    _ => fl,
                }
            }
            And => {
                let (a, b) = (self.r(n.a), self.r(n.b));
                from_u(0, a.uhi.min(b.uhi), w)
            }
            Or => {
                let (a, b) = (self.r(n.a), self.r(n.b));
                let bits = 128 - (a.uhi | b.uhi).leading_zeros();
                from_u(a.ulo.max(b.ulo), mask(bits), w)
            }
            Xor => {
                let (a, b) = (self.r(n.a), self.r(n.b));
                let bits = 128 - (a.uhi | b.uhi).leading_zeros();
                if bits == 0 {
                    from_u(0, 0, w)
                } else {
                    from_u(0, mask(bits), w)
                }
            }
            Ite => {
                let (a, b) = (self.r(n.b), self.r(n.c));
                Range {
                    ulo: a.ulo.min(b.ulo),
                    uhi: a.uhi.max(b.uhi),
                    slo: a.slo.min(b.slo),
                    shi: a.shi.max(b.shi),
                }
            }
            ZExt => {
                let a = self.r(n.a);
                from_u(a.ulo, a.uhi, w)
            }
            SExt => {
                let a = self.r(n.a);
                from_s(a.slo, a.shi, w)
            }
            Extract => {
                let a = self.r(n.a);
                let aw = self.w(n.a);
                let k = n.k as u32;
                let (lo, hi) = (a.ulo >> k, a.uhi >> k);
                let mut r = if hi <= mask(w) || (lo >> w.min(127)) == (hi >> w.min(127)) && w < 128 {
                    if (lo & mask(w)) <= (hi & mask(w)) {
                        from_u(lo & mask(w), hi & mask(w), w)
                    } else {
                        fl
                    }
                } else {
                    fl
                };
                if k == 0 && a.slo >= smin(w) && a.shi <= smax(w) {
                    r = meet(r, from_s(a.slo, a.shi, w));
                }
                let _ = aw;
                r
            }
            Concat => {
                let (a, b) = (self.r(n.a), self.r(n.b));
                let k = self.w(n.b);
                if a.ulo == a.uhi {
                    from_u((a.ulo << k) | b.ulo, (a.uhi << k) | b.uhi, w)
                } else {
                    from_u(a.ulo << k, (a.uhi << k) | mask(k), w)
                }
            }
            Tbl => {
                let tb = &self.tables[n.k as usize];
                let ir = self.r(n.a);
                let lo = ir.ulo.min(tb.vals.len() as u128 - 1) as usize;
                let hi = ir.uhi.min(tb.vals.len() as u128 - 1) as usize;
                let s = &tb.vals[lo..=hi];
                let (mut l, mut h) = (*s.iter().min().unwrap(), *s.iter().max().unwrap());
                if ir.uhi >= tb.vals.len() as u128 {
                    l = 0;
                    h = h.max(0);
                }
                let mut r = from_u(l, h, w);
                let (sl, sh) =
                    (s.iter().map(|v| sx(*v, w)).min().unwrap(), s.iter().map(|v| sx(*v, w)).max().unwrap());
                r = meet(r, from_s(sl.min(if l == 0 { 0 } else { sl }), sh, w));
                r
            }
            Var => self.vars[n.k as usize].range,
            // conversions round monotonically
            SIToF | UIToF => {
                let (a, aw) = (self.r(n.a), self.w(n.a));
                let (lo, hi) = if n.op == UIToF { (a.ulo as i128, a.uhi as i128) } else { (a.slo, a.shi) };
                if lo < 0 || a.uhi > i128::MAX as u128 {
                    return fl;
                }
                match (feval(n.op, w, aw, 0, lo as u128, 0), feval(n.op, w, aw, 0, hi as u128, 0)) {
                    (Some(l), Some(h)) => from_u(l, h, w),
                    _ => fl,
                }
            }
            _ => fl,
        }
    }

    // ---------------- constructors ----------------
    /// the parts of a conjunction (of booleans)
    pub fn conjuncts(&self, t: T) -> Vec<T> {
        let mut out = vec![];
        let mut todo = vec![t];
        while let Some(x) = todo.pop() {
            let n = self.n(x);
            if n.op == Op::And && self.w(x) == 1 {
                todo.push(n.b);
                todo.push(n.a);
            } else {
                out.push(x);
            }
        }
        out
    }
    pub fn not(&mut self, a: T) -> T {
        let n = self.n(a);
        debug_assert!(n.w == 1);
        match n.op {
            Const => self.konst(1, n.k ^ 1),
            Not => n.a,
            Ult => self.ule(n.b, n.a),
            Ule => self.ult(n.b, n.a),
            Slt => self.sle(n.b, n.a),
            Sle => self.slt(n.b, n.a),
            _ => self.mk(Node { op: Not, w: 1, a, b: NONE, c: NONE, k: 0 }),
        }
    }
    pub fn and(&mut self, a: T, b: T) -> T {
        self.bin(And, a, b)
    }
    pub fn or(&mut self, a: T, b: T) -> T {
        self.bin(Or, a, b)
    }
    pub fn cbin(op: Op, w: u32, a: u128, b: u128) -> Option<u128> {
        let m = mask(w);
        Some(match op {
            Add => a.wrapping_add(b) & m,
            Sub => a.wrapping_sub(b) & m,
            Mul => a.wrapping_mul(b) & m,
            UDiv => {
                if b == 0 {
                    return None;
                }
                a / b
            }
            URem => {
                if b == 0 {
                    return None;
                }
                a % b
            }
            SDiv => {
                if b == 0 {
                    return None;
                }
                (sx(a, w).wrapping_div(sx(b, w))) as u128 & m
            }
            SRem => {
                if b == 0 {
                    return None;
                }
                (sx(a, w).wrapping_rem(sx(b, w))) as u128 & m
            }
            Shl => {
                if b >= w as u128 {
                    0
                } else {
                    (a << b) & m
                }
            }
            LShr => {
                if b >= w as u128 {
                    0
                } else {
                    a >> b
                }
            }
            AShr => {
                let b = b.min(w as u128 - 1);
                (sx(a, w) >> b) as u128 & m
            }
            And => a & b,
            Or => a | b,
            Xor => a ^ b,
            Eq => (a == b) as u128,
            Ult => (a < b) as u128,
            Ule => (a <= b) as u128,
            Slt => (sx(a, w) < sx(b, w)) as u128,
            Sle => (sx(a, w) <= sx(b, w)) as u128,
            SAddO => match sx(a, w).checked_add(sx(b, w)) {
                Some(v) => (v < smin(w) || v > smax(w)) as u128,
                None => 1,
            },
            UAddO => match a.checked_add(b) {
                Some(v) => (v > m) as u128,
                None => 1,
            },
            SSubO => match sx(a, w).checked_sub(sx(b, w)) {
                Some(v) => (v < smin(w) || v > smax(w)) as u128,
                None => 1,
            },
            SMulO => match sx(a, w).checked_mul(sx(b, w)) {
                Some(v) => (v < smin(w) || v > smax(w)) as u128,
                None => 1,
            },
            UMulO => match a.checked_mul(b) {
                Some(v) => (v > m) as u128,
                None => 1,
            },
            _ => return None,
        })
    }
    pub fn ult(&mut self, a: T, b: T) -> T {
        self.bin(Ult, a, b)
    }
    pub fn ule(&mut self, a: T, b: T) -> T {
        self.bin(Ule, a, b)
    }
    pub fn slt(&mut self, a: T, b: T) -> T {
        self.bin(Slt, a, b)
    }
    pub fn sle(&mut self, a: T, b: T) -> T {
        self.bin(Sle, a, b)
    }
    pub fn eq(&mut self, a: T, b: T) -> T {
        self.bin(Eq, a, b)
    }
    fn is_cmp(op: Op) -> bool {
        matches!(op, Eq | Ult | Ule | Slt | Sle | SAddO | UAddO | SSubO | SMulO | UMulO)
    }
    /// known-zero bits of a term
    pub fn kz(&self, t: T, depth: u32) -> u128 {
        let n = self.n(t);
        let w = n.w;
        let r = self.r(t);
        // the bits above the first one that differs between the limits are those of the limits
        let top = mask(w) & !mask(128 - (r.ulo ^ r.uhi).leading_zeros()) & !r.ulo;
        if depth == 0 {
            return top;
        }
        top | match n.op {
            Const => !n.k & mask(w),
            ZExt => (self.kz(n.a, depth - 1) & mask(self.w(n.a))) | (mask(w) & !mask(self.w(n.a))),
            Concat => {
                let k = self.w(n.b);
                (self.kz(n.a, depth - 1) << k) | self.kz(n.b, depth - 1)
            }
            And => self.kz(n.a, depth - 1) | self.kz(n.b, depth - 1),
            Or | Xor => self.kz(n.a, depth - 1) & self.kz(n.b, depth - 1),
            Ite => self.kz(n.b, depth - 1) & self.kz(n.c, depth - 1),
            Mul => match self.cval(n.b) {
                Some(c) if c != 0 => mask(c.trailing_zeros()),
                _ => 0,
            },
            Add => {
                let z = self.kz(n.a, depth - 1) & self.kz(n.b, depth - 1);
                mask((!z).trailing_zeros().min(w)) & mask(w)
            }
            Extract => (self.kz(n.a, depth - 1) >> n.k) & mask(w),
            _ => 0,
        }
    }

    pub fn bin(&mut self, op: Op, a: T, b: T) -> T {
        let na = self.n(a);
        let nb = self.n(b);
        let w = na.w;
        debug_assert!(na.w == nb.w, "width mismatch {:?} {:?} {:?}", op, na, nb);
        let rw = if Cx::is_cmp(op) { 1 } else { w };
        if na.op == Const && nb.op == Const {
            if let Some(v) = Cx::cbin(op, w, na.k, nb.k) {
                return self.konst(rw, v);
            }
        }
        // constants to the right
        if na.op == Const && matches!(op, Add | Mul | And | Or | Xor | Eq | SAddO | UAddO | SMulO | UMulO) {
            return self.bin(op, b, a);
        }
        let cb = if nb.op == Const { Some(nb.k) } else { None };
        let m = mask(w);
        if let Some(c) = cb {
            if matches!(op, UDiv | SDiv | URem | SRem) && w > 1 {
                if let Some(t) = self.lin_div(op, a, c, w) {
                    return t;
                }
            }
        }
        if matches!(op, Eq | Ult | Ule | Slt | Sle) && w > 1 {
            if let Some(v) = self.lin_cmp(op, a, b) {
                return self.konst(1, v as u128);
            }
        }
        match op {
            Add => {
                if let Some(c) = cb {
                    if c == 0 {
                        return a;
                    }
                    if na.op == Add {
                        if let Some(c1) = self.cval(na.b) {
                            let k = self.konst(w, c1.wrapping_add(c));
                            return self.bin(Add, na.a, k);
                        }
                    }
                }
                if na.op == Sub && na.b == b {
                    return na.a;
                }
                if nb.op == Sub && nb.b == a {
                    return nb.a;
                }
                if w == 1 {
                    return self.bin(Xor, a, b);
                }
                if cb.is_none() && a > b {
                    return self.bin(Add, b, a);
                }
            }
            Sub => {
                if a == b {
                    return self.konst(w, 0);
                }
                if let Some(c) = cb {
                    let k = self.konst(w, 0u128.wrapping_sub(c));
                    return self.bin(Add, a, k);
                }
                if na.op == Add {
                    if na.b == b {
                        return na.a;
                    }
                    if na.a == b {
                        return na.b;
                    }
                }
                if nb.op == Add && nb.a == a {
                    let z = self.konst(w, 0);
                    return self.bin(Sub, z, nb.b);
                }
                if w == 1 {
                    return self.bin(Xor, a, b);
                }
            }
            Mul => {
                if let Some(c) = cb {
                    if c == 0 {
                        return b;
                    }
                    if c == 1 {
                        return a;
                    }
                }
                if cb.is_none() && a > b {
                    return self.bin(Mul, b, a);
                }
                if w == 1 {
                    return self.bin(And, a, b);
                }
            }
            UDiv | SDiv => {
                if cb == Some(1) && w > 1 {
                    return a;
                }
                if op == SDiv && self.r(a).slo >= 0 && self.r(b).slo >= 0 {
                    return self.bin(UDiv, a, b);
                }
                if let Some(c) = cb {
                    if op == UDiv && c.is_power_of_two() {
                        let k = self.konst(w, c.trailing_zeros() as u128);
                        return self.bin(LShr, a, k);
                    }
                    if op == UDiv && na.op == ZExt {
                        let aw = self.w(na.a);
                        if c <= mask(aw) && aw > 1 {
                            let k = self.konst(aw, c);
                            let d = self.bin(UDiv, na.a, k);
                            return self.zext(d, w);
                        }
                    }
                    // (x udiv c1) udiv c = x udiv (c1*c)
                    if op == UDiv && c > 0 && na.op == UDiv {
                        if let Some(c1) = self.cval(na.b) {
                            if let Some(p) = c1.checked_mul(c) {
                                if p <= m {
                                    let k = self.konst(w, p);
                                    return self.bin(UDiv, na.a, k);
                                }
                            }
                        }
                    }
                }
            }
            URem | SRem => {
                if op == SRem && self.r(a).slo >= 0 && self.r(b).slo >= 0 {
                    return self.bin(URem, a, b);
                }
                if cb == Some(1) {
                    return self.konst(w, 0);
                }
                if op == URem && self.r(a).uhi < self.r(b).ulo {
                    return a;
                }
                if let Some(c) = cb {
                    if op == URem && c.is_power_of_two() {
                        let k = self.konst(w, c - 1);
                        return self.bin(And, a, k);
                    }
                    if op == URem && na.op == ZExt {
                        let aw = self.w(na.a);
                        if c <= mask(aw) && aw > 1 {
                            let k = self.konst(aw, c);
                            let d = self.bin(URem, na.a, k);
                            return self.zext(d, w);
                        }
                    }
                }
            }
            Shl => {
                if let Some(k) = cb {
                    if k == 0 {
                        return a;
                    }
                    if k >= w as u128 {
                        return self.konst(w, 0);
                    }
                    let lowpart = self.extract(a, 0, w - k as u32);
                    let z = self.konst(k as u32, 0);
                    return self.concat(lowpart, z);
                }
            }
            LShr => {
                if let Some(k) = cb {
                    if k == 0 {
                        return a;
                    }
                    if k >= w as u128 {
                        return self.konst(w, 0);
                    }
                    let h = self.extract(a, k as u32, w - k as u32);
                    return self.zext(h, w);
                }
            }
            AShr => {
                if cb == Some(0) {
                    return a;
                }
                if self.r(a).slo >= 0 && cb.is_some() {
                    return self.bin(LShr, a, b);
                }
            }
            And => {
                if a == b {
                    return a;
                }
                if let Some(c) = cb {
                    if c == 0 {
                        return b;
                    }
                    if c == m {
                        return a;
                    }
                    if na.op == Xor && self.cval(na.b).map_or(false, |k| k & c == 0) {
                        return self.bin(And, na.a, b);
                    }
                    // low mask
                    let bits = 128 - c.leading_zeros();
                    if c == mask(bits) {
                        let e = self.extract(a, 0, bits);
                        return self.zext(e, w);
                    }
                    if self.kz(a, 3) | c == m {
                        // all bits removed by the mask are known zero
                        return a;
                    }
                }
                if w == 1 {
                    if (na.op == Not && na.a == b) || (nb.op == Not && nb.a == a) {
                        return self.fls();
                    }
                }
                if cb.is_none() && a > b {
                    return self.bin(And, b, a);
                }
            }
            Or => {
                if a == b {
                    return a;
                }
                if let Some(c) = cb {
                    if c == 0 {
                        return a;
                    }
                    if c == m {
                        return b;
                    }
                    if w > 1 && w <= 64 {
                        let r = self.r(a);
                        let ones = r.ulo & !mask(128 - (r.ulo ^ r.uhi).leading_zeros());
                        if c & ones == c {
                            return a;
                        }
                        if self.kz(a, 3) & c == c {
                            return self.bin(Add, a, b);
                        }
                    }
                }
                if w == 1 {
                    if (na.op == Not && na.a == b) || (nb.op == Not && nb.a == a) {
                        return self.tru();
                    }
                }
                if cb.is_none() && a > b {
                    return self.bin(Or, b, a);
                }
            }
            Xor => {
                if a == b {
                    return self.konst(w, 0);
                }
                if let Some(c) = cb {
                    if c == 0 {
                        return a;
                    }
                    if w == 1 {
                        return self.not(a);
                    }
                    if na.op == Xor {
                        if let Some(c1) = self.cval(na.b) {
                            let k = self.konst(w, c1 ^ c);
                            return self.bin(Xor, na.a, k);
                        }
                    }
                }
                if cb.is_none() && a > b {
                    return self.bin(Xor, b, a);
                }
            }
            Eq => {
                if a == b {
                    return self.tru();
                }
                let (ra, rb) = (self.r(a), self.r(b));
                if ra.uhi < rb.ulo || rb.uhi < ra.ulo || ra.shi < rb.slo || rb.shi < ra.slo {
                    return self.fls();
                }
                if let Some(c) = cb {
                    if w == 1 {
                        return if c == 1 { a } else { self.not(a) };
                    }
                    match na.op {
                        ZExt => {
                            let aw = self.w(na.a);
                            if c > mask(aw) {
                                return self.fls();
                            }
                            let k = self.konst(aw, c);
                            return self.bin(Eq, na.a, k);
                        }
                        SExt => {
                            let aw = self.w(na.a);
                            let s = sx(c, w);
                            if s < smin(aw) || s > smax(aw) {
                                return self.fls();
                            }
                            let k = self.konst(aw, c & mask(aw));
                            return self.bin(Eq, na.a, k);
                        }
                        Add => {
                            if let Some(c1) = self.cval(na.b) {
                                let k = self.konst(w, c.wrapping_sub(c1));
                                return self.bin(Eq, na.a, k);
                            }
                        }
                        Xor => {
                            if let Some(c1) = self.cval(na.b) {
                                let k = self.konst(w, c ^ c1);
                                return self.bin(Eq, na.a, k);
                            }
                        }
                        Ite => {
                            let x = self.cval(na.b);
                            let y = self.cval(na.c);
                            if x.is_some() || y.is_some() {
                                let e1 = self.bin(Eq, na.b, b);
                                let e2 = self.bin(Eq, na.c, b);
                                return self.ite(na.a, e1, e2);
                            }
                        }
                        Concat => {
                            let k = self.w(na.b);
                            let hb = self.konst(w - k, c >> k);
                            let lb = self.konst(k, c & mask(k));
                            let e1 = self.bin(Eq, na.a, hb);
                            let e2 = self.bin(Eq, na.b, lb);
                            return self.bin(And, e1, e2);
                        }
                        _ => {}
                    }
                }
                if na.op == ZExt && nb.op == ZExt && self.w(na.a) == self.w(nb.a) {
                    return self.bin(Eq, na.a, nb.a);
                }
                if na.op == SExt && nb.op == SExt && self.w(na.a) == self.w(nb.a) {
                    return self.bin(Eq, na.a, nb.a);
                }
                if cb.is_none() && a > b {
                    return self.bin(Eq, b, a);
                }
            }
            Ult | Ule => {
                if a == b {
                    return self.konst(1, (op == Ule) as u128);
                }
                let (ra, rb) = (self.r(a), self.r(b));
                if op == Ult {
                    if ra.uhi < rb.ulo {
                        return self.tru();
                    }
                    if ra.ulo >= rb.uhi {
                        return self.fls();
                    }
                } else {
                    if ra.uhi <= rb.ulo {
                        return self.tru();
                    }
                    if ra.ulo > rb.uhi {
                        return self.fls();
                    }
                }
                if na.op == ZExt && nb.op == ZExt && self.w(na.a) == self.w(nb.a) {
                    return self.bin(op, na.a, nb.a);
                }
                if na.op == ZExt && nb.op == Const && self.w(na.a) > 1 && nb.k <= mask(self.w(na.a)) {
                    let k = self.konst(self.w(na.a), nb.k);
                    return self.bin(op, na.a, k);
                }
                if nb.op == ZExt && na.op == Const && self.w(nb.a) > 1 && na.k <= mask(self.w(nb.a)) {
                    let k = self.konst(self.w(nb.a), na.k);
                    return self.bin(op, k, nb.a);
                }
                if w == 1 {
                    // ult(a,b) = !a & b ; ule = !a | b
                    let na_ = self.not(a);
                    return self.bin(if op == Ult { And } else { Or }, na_, b);
                }
                // x <u 1  ==  x = 0
                if op == Ult && cb == Some(1) {
                    let z = self.konst(w, 0);
                    return self.bin(Eq, a, z);
                }
            }
            Slt | Sle => {
                if a == b {
                    return self.konst(1, (op == Sle) as u128);
                }
                let (ra, rb) = (self.r(a), self.r(b));
                if op == Slt {
                    if ra.shi < rb.slo {
                        return self.tru();
                    }
                    if ra.slo >= rb.shi {
                        return self.fls();
                    }
                } else {
                    if ra.shi <= rb.slo {
                        return self.tru();
                    }
                    if ra.slo > rb.shi {
                        return self.fls();
                    }
                }
                if ra.slo >= 0 && rb.slo >= 0 {
                    return self.bin(if op == Slt { Ult } else { Ule }, a, b);
                }
                if na.op == SExt && nb.op == SExt && self.w(na.a) == self.w(nb.a) {
                    return self.bin(op, na.a, nb.a);
                }
                if na.op == SExt && nb.op == Const {
                    let aw = self.w(na.a);
                    let s = sx(nb.k, w);
                    if aw > 1 && s >= smin(aw) && s <= smax(aw) {
                        let k = self.konst(aw, nb.k);
                        return self.bin(op, na.a, k);
                    }
                }
                if nb.op == SExt && na.op == Const {
                    let aw = self.w(nb.a);
                    let s = sx(na.k, w);
                    if aw > 1 && s >= smin(aw) && s <= smax(aw) {
                        let k = self.konst(aw, na.k);
                        return self.bin(op, k, nb.a);
                    }
                }
            }
            SAddO => {
                let (ra, rb) = (self.r(a), self.r(b));
                if let (Some(l), Some(h)) = (ra.slo.checked_add(rb.slo), ra.shi.checked_add(rb.shi)) {
                    if l >= smin(w) && h <= smax(w) {
                        return self.fls();
                    }
                }
            }
            SSubO => {
                let (ra, rb) = (self.r(a), self.r(b));
                if let (Some(l), Some(h)) = (ra.slo.checked_sub(rb.shi), ra.shi.checked_sub(rb.slo)) {
                    if l >= smin(w) && h <= smax(w) {
                        return self.fls();
                    }
                }
            }
            UAddO => {
                let (ra, rb) = (self.r(a), self.r(b));
                if let Some(h) = ra.uhi.checked_add(rb.uhi) {
                    if h <= m {
                        return self.fls();
                    }
                }
                // overflow iff a > max - b
                let ones = self.konst(w, m);
                let d = if let Some(c) = cb { self.konst(w, m - c) } else { self.bin(Xor, b, ones) };
                return self.bin(Ult, d, a);
            }
            SMulO => {
                let (ra, rb) = (self.r(a), self.r(b));
                let ps = [
                    ra.slo.checked_mul(rb.slo),
                    ra.slo.checked_mul(rb.shi),
                    ra.shi.checked_mul(rb.slo),
                    ra.shi.checked_mul(rb.shi),
                ];
                if ps.iter().all(|p| matches!(p, Some(v) if *v >= smin(w) && *v <= smax(w))) {
                    return self.fls();
                }
                if cb == Some(1) {
                    return self.fls();
                }
                if cb.is_none() && a > b {
                    return self.bin(SMulO, b, a);
                }
            }
            UMulO => {
                let (ra, rb) = (self.r(a), self.r(b));
                if let Some(h) = ra.uhi.checked_mul(rb.uhi) {
                    if h <= m {
                        return self.fls();
                    }
                }
                if let Some(c) = cb {
                    if c == 0 || c == 1 {
                        return self.fls();
                    }
                    let k = self.konst(w, m / c);
                    return self.bin(Ult, k, a);
                }
                if a > b {
                    return self.bin(UMulO, b, a);
                }
            }
            _ => {}
        }
        self.mk(Node { op, w: rw, a, b, c: NONE, k: 0 })
    }
    pub fn ite(&mut self, c: T, a: T, b: T) -> T {
        if a == b {
            return a;
        }
        match self.cval(c) {
            Some(1) => return a,
            Some(_) => return b,
            None => {}
        }
        let nc = self.n(c);
        if nc.op == Not {
            return self.ite(nc.a, b, a);
        }
        let w = self.w(a);
        if w == 1 {
            let (ca, cb) = (self.cval(a), self.cval(b));
            match (ca, cb) {
                (Some(1), Some(0)) => return c,
                (Some(0), Some(1)) => return self.not(c),
                (Some(1), None) => return self.bin(Or, c, b),
                (Some(0), None) => {
                    let n = self.not(c);
                    return self.bin(And, n, b);
                }
                (None, Some(1)) => {
                    let n = self.not(c);
                    return self.bin(Or, n, a);
                }
                (None, Some(0)) => return self.bin(And, c, a),
                _ => {}
            }
        }
        let (na, nb) = (self.n(a), self.n(b));
        if na.op == ZExt && nb.op == ZExt && self.w(na.a) == self.w(nb.a) {
            let i = self.ite(c, na.a, nb.a);
            return self.zext(i, w);
        }
        if na.op == Ite && na.a == c {
            return self.ite(c, na.b, b);
        }
        if nb.op == Ite && nb.a == c {
            return self.ite(c, a, nb.c);
        }
        self.mk(Node { op: Ite, w, a: c, b: a, c: b, k: 0 })
    }
    pub fn zext(&mut self, a: T, w: u32) -> T {
        let n = self.n(a);
        if n.w == w {
            return a;
        }
        debug_assert!(n.w < w);
        match n.op {
            Const => self.konst(w, n.k),
            ZExt => self.zext(n.a, w),
            // nothing was cut off
            Extract if n.k == 0 && self.r(n.a).uhi <= mask(n.w) => {
                if self.w(n.a) >= w {
                    self.extract(n.a, 0, w)
                } else {
                    self.zext(n.a, w)
                }
            }
            Ite if self.cval(n.b).is_some() && self.cval(n.c).is_some() && n.w > 1 => {
                let (x, y) = (self.zext(n.b, w), self.zext(n.c, w));
                self.ite(n.a, x, y)
            }
            _ => self.mk(Node { op: ZExt, w, a, b: NONE, c: NONE, k: 0 }),
        }
    }
    pub fn sext(&mut self, a: T, w: u32) -> T {
        let n = self.n(a);
        if n.w == w {
            return a;
        }
        match n.op {
            Const => self.konst(w, sx(n.k, n.w) as u128),
            SExt => self.sext(n.a, w),
            ZExt if n.w > self.w(n.a) => self.zext(n.a, w),
            Extract if n.k == 0 && n.w > 1 && n.w <= 64 && self.r(n.a).slo >= -(1i128 << (n.w - 1)) && self.r(n.a).shi < 1i128 << (n.w - 1) => {
                if self.w(n.a) >= w {
                    self.extract(n.a, 0, w)
                } else {
                    self.sext(n.a, w)
                }
            }
            _ => {
                if n.w > 1 && self.r(a).slo >= 0 {
                    return self.zext(a, w);
                }
                self.mk(Node { op: SExt, w, a, b: NONE, c: NONE, k: 0 })
            }
        }
    }
    pub fn trunc(&mut self, a: T, w: u32) -> T {
        self.extract(a, 0, w)
    }
    /// bits lo .. lo+w-1
    pub fn extract(&mut self, a: T, lo: u32, w: u32) -> T {
        let n = self.n(a);
        if lo == 0 && w == n.w {
            return a;
        }
        debug_assert!(lo + w <= n.w);
        match n.op {
            Const => return self.konst(w, n.k >> lo),
            Extract => return self.extract(n.a, lo + n.k as u32, w),
            ZExt => {
                let aw = self.w(n.a);
                if lo >= aw {
                    return self.konst(w, 0);
                }
                if lo + w <= aw {
                    return self.extract(n.a, lo, w);
                }
                let e = self.extract(n.a, lo, aw - lo);
                return self.zext(e, w);
            }
            SExt => {
                let aw = self.w(n.a);
                if lo + w <= aw {
                    return self.extract(n.a, lo, w);
                }
                if lo == 0 {
                    return self.sext(n.a, w);
                }
            }
            Concat => {
                let bw = self.w(n.b);
                if lo + w <= bw {
                    return self.extract(n.b, lo, w);
                }
                if lo >= bw {
                    return self.extract(n.a, lo - bw, w);
                }
                let l = self.extract(n.b, lo, bw - lo);
                let h = self.extract(n.a, 0, w - (bw - lo));
                return self.concat(h, l);
            }
            Ite => {
                if self.cval(n.b).is_some() || self.cval(n.c).is_some() {
                    let x = self.extract(n.b, lo, w);
                    let y = self.extract(n.c, lo, w);
                    return self.ite(n.a, x, y);
                }
            }
            And | Or | Xor => {
                if self.cval(n.b).is_some() {
                    let x = self.extract(n.a, lo, w);
                    let y = self.extract(n.b, lo, w);
                    return self.bin(n.op, x, y);
                }
            }
            Add | Sub | Mul if lo == 0 => {
                // push truncation inwards when an operand is an extension (keeps narrow arithmetic narrow)
                let (x, y) = (self.n(n.a), self.n(n.b));
                let xo = x.op == Const || ((x.op == ZExt || x.op == SExt) && self.w(x.a) <= w);
                let yo = y.op == Const || ((y.op == ZExt || y.op == SExt) && self.w(y.a) <= w);
                if xo && yo {
                    let p = self.extract(n.a, 0, w);
                    let q = self.extract(n.b, 0, w);
                    return self.bin(n.op, p, q);
                }
            }
            _ => {}
        }
        if lo > 0 && matches!(n.op, Add | Sub | Mul) {
            if let Some(t) = self.lin_shr(a, lo, w) {
                return t;
            }
        }
        self.mk(Node { op: Extract, w, a, b: NONE, c: NONE, k: lo as u128 })
    }
    pub fn concat(&mut self, hi: T, lo: T) -> T {
        let (nh, nl) = (self.n(hi), self.n(lo));
        let w = nh.w + nl.w;
        if nh.op == Const && nl.op == Const {
            return self.konst(w, (nh.k << nl.w) | nl.k);
        }
        if nh.op == Const && nh.k == 0 {
            return self.zext(lo, w);
        }
        if nh.op == ZExt {
            let inner = self.concat(nh.a, lo);
            return self.zext(inner, w);
        }
        // adjacent extracts
        let (hb, hl) = if nh.op == Extract { (nh.a, nh.k as u32) } else { (hi, 0) };
        let (lb, ll) = if nl.op == Extract { (nl.a, nl.k as u32) } else { (lo, 0) };
        if hb == lb && hl == ll + nl.w && nh.op == Extract {
            return self.extract(hb, ll, w);
        }
        // concat(x, concat(y, z)) where x,y adjacent
        if nl.op == Concat {
            let h2 = self.n(nl.a);
            if nh.op == Extract && h2.op == Extract && nh.a == h2.a && nh.k as u32 == h2.k as u32 + h2.w {
                let j = self.extract(nh.a, h2.k as u32, nh.w + h2.w);
                return self.concat(j, nl.b);
            }
        }
        self.mk(Node { op: Concat, w, a: hi, b: lo, c: NONE, k: 0 })
    }
    pub fn table(&mut self, w: u32, vals: Vec<u128>, idx: T) -> T {
        if let Some(i) = self.cval(idx) {
            return self.konst(w, vals.get(i as usize).copied().unwrap_or(0));
        }
        if vals.iter().all(|v| *v == vals[0]) {
            return self.konst(w, vals[0]);
        }
        if let Some(t) = self.lin_table(w, &vals, idx) {
            return t;
        }
        let key = (w, vals);
        let id = match self.tbl_map.get(&key) {
            Some(i) => *i,
            None => {
                let i = self.tables.len() as u32;
                self.tables.push(Table { w, vals: key.1.clone() });
                self.tbl_map.insert(key, i);
                i
            }
        };
        self.mk(Node { op: Tbl, w, a: idx, b: NONE, c: NONE, k: id as u128 })
    }
    pub fn fop(&mut self, op: Op, w: u32, k: u128, a: T, b: T) -> T {
        if let Some(x) = self.cval(a) {
            let y = if b == NONE { Some(0) } else { self.cval(b) };
            if let Some(y) = y {
                if let Some(v) = feval(op, w, self.w(a), k, x, y) {
                    return self.konst(w, v);
                }
            }
        }
        if op == FToF && self.w(a) == w {
            return a;
        }
        if op == FRound {
            // converted integers, negated ones
            let n = self.n(a);
            let x = if n.op == Xor && self.cval(n.b) == Some(1 << (w - 1)) { n.a } else { a };
            if matches!(self.n(x).op, SIToF | UIToF) {
                return a;
            }
        }
        if op == FMul || op == FDiv {
            // a number (never NaN) times one, or divided by it
            let one = if w == 32 { 0x3f80_0000 } else { 0x3ff0_0000_0000_0000 };
            for (x, y) in [(a, b), (b, a)] {
                if self.cval(y) == Some(one) && matches!(self.n(x).op, SIToF | UIToF) && (op == FMul || y == b) {
                    return x;
                }
            }
        }
        let (a, b) = if matches!(op, FAdd | FMul) && a > b { (b, a) } else { (a, b) };
        self.mk(Node { op, w, a, b, c: NONE, k })
    }
    /// exponent width, mantissa width (without hidden bit)
    pub fn fmt(w: u32) -> (u32, u32) {
        if w == 32 {
            (8, 23)
        } else {
            (11, 52)
        }
    }
    pub fn f_is_nan(&mut self, a: T) -> T {
        let w = self.w(a);
        let (e, mm) = Cx::fmt(w);
        let inf = self.konst(w - 1, mask(e) << mm);
        let x = self.extract(a, 0, w - 1);
        self.ult(inf, x)
    }
    /// ordered comparison on bit patterns: op in Eq, Ult(=lt), Ule(=le)
    pub fn f_cmp(&mut self, op: Op, a: T, b: T) -> T {
        let w = self.w(a);
        let (na, nb) = (self.f_is_nan(a), self.f_is_nan(b));
        let nan = self.or(na, nb);
        let ord = self.not(nan);
        let (ma, mb) = (self.extract(a, 0, w - 1), self.extract(b, 0, w - 1));
        let z = self.konst(w - 1, 0);
        let (za, zb) = (self.eq(ma, z), self.eq(mb, z));
        let zz = self.and(za, zb);
        let r = match op {
            Eq => {
                let e = self.eq(a, b);
                self.or(e, zz)
            }
            _ => {
                let (sa, sb) = (self.extract(a, w - 1, 1), self.extract(b, w - 1, 1));
                let lt_pos = self.ult(ma, mb);
                let lt_neg = self.ult(mb, ma);
                // a<b : sa&!sb & !(both zero) | !sa&!sb & ma<mb | sa&sb & mb<ma
                let nsa = self.not(sa);
                let nsb = self.not(sb);
                let nzz = self.not(zz);
                let p1 = self.and(sa, nsb);
                let c1 = self.and(p1, nzz);
                let p2 = self.and(nsa, nsb);
                let c2 = self.and(p2, lt_pos);
                let p3 = self.and(sa, sb);
                let c3 = self.and(p3, lt_neg);
                let o = self.or(c1, c2);
                let lt = self.or(o, c3);
                if op == Ult {
                    lt
                } else {
                    let e = self.eq(a, b);
                    let e2 = self.or(e, zz);
                    self.or(lt, e2)
                }
            }
        };
        self.and(ord, r)
    }

    // ---------------- evaluation ----------------
    pub fn eval(&self, t: T, m: &HashMap<T, u128>, memo: &mut HashMap<T, Option<u128>>) -> Option<u128> {
        let n = self.n(t);
        match n.op {
            Const => return Some(n.k),
            Var => return Some(m.get(&t).copied().unwrap_or_else(|| self.r(t).ulo.max(0))),
            InRange => return Some(1),
            _ => {}
        }
        if let Some(v) = memo.get(&t) {
            return *v;
        }
        // iterative would be safer for very deep terms; depth is limited by path length in practice
        let v = (|| {
            let a = if n.a != NONE { Some(n.a) } else { None };
            match n.op {
                Ite => {
                    let c = self.eval(n.a, m, memo)?;
                    return if c == 1 { self.eval(n.b, m, memo) } else { self.eval(n.c, m, memo) };
                }
                Uf => return None,
                _ => {}
            }
            let x = self.eval(a.unwrap(), m, memo)?;
            let y = if n.b != NONE { self.eval(n.b, m, memo)? } else { 0 };
            let aw = self.w(n.a);
            Some(match n.op {
                Not => x ^ 1,
                ZExt => x,
                SExt => sx(x, aw) as u128 & mask(n.w),
                Extract => (x >> n.k) & mask(n.w),
                Concat => (x << self.w(n.b)) | y,
                Tbl => self.tables[n.k as usize].vals.get(x as usize).copied().unwrap_or(0),
                FAdd | FSub | FMul | FDiv | FRem | FSqrt | FRound | FToSI | FToUI | SIToF | UIToF | FToF => {
                    return feval(n.op, n.w, aw, n.k, x, y)
                }
                UDiv | URem | SDiv | SRem if y == 0 => return None,
                op => return Cx::cbin(op, aw, x, y),
            })
        })();
        memo.insert(t, v);
        v
    }
}
