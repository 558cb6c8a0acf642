//! Exact linear forms: the integer value of a term as  k + sum(c_i * atom_i)  without any wrap-around,
//! used to divide, compare and look up such terms exactly.
use crate::term::*;
use std::rc::Rc;

/// an atom is a term read as signed (true) or unsigned (false) integer
pub type Atom = (T, bool);

#[derive(Clone, Debug, PartialEq)]
pub struct Lin {
    pub k: i128,
    pub t: Vec<(Atom, i128)>, // sorted by atom, no zero coefficient
    pub lo: i128,
    pub hi: i128,
}

const MAXT: usize = 48;

impl Cx {
    fn atom_range(&self, a: Atom) -> Option<(i128, i128)> {
        let r = self.r(a.0);
        if a.1 {
            Some((r.slo, r.shi))
        } else if r.uhi <= i128::MAX as u128 {
            Some((r.ulo as i128, r.uhi as i128))
        } else {
            None
        }
    }
    fn bounds(&self, t: &[(Atom, i128)], k: i128) -> Option<(i128, i128)> {
        let (mut lo, mut hi) = (k, k);
        for (a, c) in t {
            let (l, h) = self.atom_range(*a)?;
            let (p, q) = (l.checked_mul(*c)?, h.checked_mul(*c)?);
            lo = lo.checked_add(p.min(q))?;
            hi = hi.checked_add(p.max(q))?;
        }
        Some((lo, hi))
    }
    fn mk_lin(&self, t: Vec<(Atom, i128)>, k: i128) -> Option<Lin> {
        if t.len() > MAXT {
            return None;
        }
        let (lo, hi) = self.bounds(&t, k)?;
        Some(Lin { k, t, lo, hi })
    }
    fn lin_add(&self, a: &Lin, b: &Lin, f: i128) -> Option<Lin> {
        let mut out: Vec<(Atom, i128)> = Vec::with_capacity(a.t.len() + b.t.len());
        let (mut i, mut j) = (0, 0);
        while i < a.t.len() || j < b.t.len() {
            if j == b.t.len() || (i < a.t.len() && a.t[i].0 < b.t[j].0) {
                out.push(a.t[i]);
                i += 1;
            } else if i == a.t.len() || b.t[j].0 < a.t[i].0 {
                out.push((b.t[j].0, b.t[j].1.checked_mul(f)?));
                j += 1;
            } else {
                let c = a.t[i].1.checked_add(b.t[j].1.checked_mul(f)?)?;
                if c != 0 {
                    out.push((a.t[i].0, c));
                }
                i += 1;
                j += 1;
            }
        }
        self.mk_lin(out, a.k.checked_add(b.k.checked_mul(f)?)?)
    }
    fn lin_mul(&self, a: &Lin, f: i128) -> Option<Lin> {
        if f == 0 {
            return self.mk_lin(vec![], 0);
        }
        let mut t = a.t.clone();
        for x in t.iter_mut() {
            x.1 = x.1.checked_mul(f)?;
        }
        self.mk_lin(t, a.k.checked_mul(f)?)
    }
    fn fits(&self, l: &Lin, w: u32, signed: bool) -> bool {
        if signed {
            l.lo >= smin(w) && l.hi <= smax(w)
        } else {
            l.lo >= 0 && (w >= 127 || l.hi <= mask(w) as i128)
        }
    }
    /// `l` is right modulo 2^w: the wanted reading, if it is the same number of wraps away for every value
    fn shifted(&self, mut l: Lin, w: u32, signed: bool) -> Option<Lin> {
        if w > 120 {
            return if self.fits(&l, w, signed) { Some(l) } else { None };
        }
        let p = 1i128 << w;
        let tl = if signed { smin(w) } else { 0 };
        let q = l.lo.checked_sub(tl)?.div_euclid(p);
        if q != l.hi.checked_sub(tl)?.div_euclid(p) {
            return None;
        }
        let d = q.checked_mul(p)?;
        l.k = l.k.checked_sub(d)?;
        l.lo -= d;
        l.hi -= d;
        Some(l)
    }
    /// the value of `t` read as signed / unsigned integer
    pub fn lin(&mut self, t: T, signed: bool) -> Option<Rc<Lin>> {
        // both readings agree where the sign bit is known to be clear
        let signed = signed && self.r(t).slo < 0;
        if let Some(x) = self.lin_memo.get(&(t, signed)) {
            return x.clone();
        }
        let r = self.lin_new(t, signed).map(Rc::new);
        self.lin_memo.insert((t, signed), r.clone());
        r
    }
    fn lin_new(&mut self, t: T, signed: bool) -> Option<Lin> {
        let n = self.n(t);
        let w = n.w;
        let r = self.r(t);
        let nonneg = r.slo >= 0;
        let compound = match n.op {
            Op::Const => {
                let k = if signed { sx(n.k, w) } else { i128::try_from(n.k).ok()? };
                return self.mk_lin(vec![], k);
            }
            Op::Add | Op::Sub => {
                let f = if n.op == Op::Add { 1 } else { -1 };
                let mut out = None;
                for s in [true, false] {
                    // a reading of the operands in which the exact sum is the value of t
                    if let (Some(a), Some(b)) = (self.lin(n.a, s), self.lin(n.b, s)) {
                        if let Some(l) = self.lin_add(&a, &b, f) {
                            if self.fits(&l, w, s) && (s == signed || nonneg) {
                                out = Some(l);
                                break;
                            }
                            if let Some(l) = self.shifted(l, w, signed) {
                                out = Some(l);
                                break;
                            }
                        }
                    }
                }
                out
            }
            Op::Mul => {
                let mut out = None;
                if let Some(c) = self.cval(n.b) {
                    for s in [true, false] {
                        let c = if s { sx(c, w) } else { c as i128 };
                        if c == i128::MIN || (!s && w >= 127) {
                            continue;
                        }
                        if let Some(a) = self.lin(n.a, s) {
                            if let Some(l) = self.lin_mul(&a, c) {
                                if self.fits(&l, w, s) && (s == signed || nonneg) {
                                    out = Some(l);
                                    break;
                                }
                                if let Some(l) = self.shifted(l, w, signed) {
                                    out = Some(l);
                                    break;
                                }
                            }
                        }
                    }
                }
                out
            }
            Op::ZExt => self.lin(n.a, false).map(|l| (*l).clone()),
            Op::SExt => {
                if signed || nonneg {
                    self.lin(n.a, true).map(|l| (*l).clone())
                } else {
                    None
                }
            }
            Op::Concat => {
                let k = self.w(n.b);
                if k < 126 {
                    match (self.lin(n.a, signed), self.lin(n.b, false)) {
                        (Some(h), Some(l)) => self.lin_mul(&h, 1i128 << k).and_then(|x| self.lin_add(&x, &l, 1)),
                        _ => None,
                    }
                } else {
                    None
                }
            }
            Op::Extract if n.k == 0 => {
                let mut out = None;
                for s in [true, false] {
                    if let Some(l) = self.lin(n.a, s) {
                        if let Some(l) = self.shifted((*l).clone(), w, signed) {
                            out = Some(l);
                            break;
                        }
                    }
                }
                out
            }
            _ => None,
        };
        if let Some(l) = compound {
            return Some(l);
        }
        self.mk_lin(vec![((t, signed), 1)], 0)
    }
    /// a term of width w with the value of the form modulo 2^w
    pub fn lin_term(&mut self, l: &Lin, w: u32) -> T {
        let mut acc: Option<T> = None;
        for ((a, s), c) in &l.t {
            let aw = self.w(*a);
            let x = if aw == w {
                *a
            } else if aw > w {
                self.extract(*a, 0, w)
            } else if *s {
                self.sext(*a, w)
            } else {
                self.zext(*a, w)
            };
            let p = if *c == -1 {
                let z = self.konst(w, 0);
                self.bin(Op::Sub, z, x)
            } else {
                let kc = self.konst(w, *c as u128 & mask(w));
                self.bin(Op::Mul, x, kc)
            };
            acc = Some(match acc {
                None => p,
                Some(q) => self.bin(Op::Add, q, p),
            });
        }
        let k = self.konst(w, l.k as u128 & mask(w));
        match acc {
            None => k,
            Some(a) => self.bin(Op::Add, a, k),
        }
    }
    /// floor quotient and remainder by c > 0: (terms of the quotient, rest form with bounds)
    fn lin_split(&self, l: &Lin, c: i128) -> Option<(Lin, Lin)> {
        let (mut q, mut r) = (vec![], vec![]);
        for (a, x) in &l.t {
            // balanced residue: a small coefficient stays as it is
            let (mut d, mut m) = (x.div_euclid(c), x.rem_euclid(c));
            if m > c / 2 {
                d += 1;
                m -= c;
            }
            if d != 0 {
                q.push((*a, d));
            }
            if m != 0 {
                r.push((*a, m));
            }
        }
        // put the rest as close to 0.. as one multiple of c allows
        let r0 = self.mk_lin(r, l.k.rem_euclid(c))?;
        let d = r0.lo.div_euclid(c);
        let q = self.mk_lin(q, l.k.div_euclid(c).checked_add(d)?)?;
        let r = self.mk_lin(r0.t, r0.k.checked_sub(d.checked_mul(c)?)?)?;
        Some((q, r))
    }
    /// exact floor division of the form: Some((quotient, remainder)) as terms of width w
    fn lin_floor(&mut self, l: &Lin, c: i128, w: u32) -> Option<(T, T)> {
        let (q, r) = self.lin_split(l, c)?;
        let (m0, m1) = (r.lo.div_euclid(c), r.hi.div_euclid(c));
        if m1 - m0 > 1 {
            return None;
        }
        let mut q = q;
        q.k = q.k.checked_add(m0)?;
        let q = self.mk_lin(q.t, q.k)?;
        let r = self.mk_lin(r.t.clone(), r.k.checked_sub(m0.checked_mul(c)?)?)?;
        let qt = self.lin_term(&q, w);
        let rt = self.lin_term(&r, w);
        if m1 == m0 {
            return Some((qt, rt));
        }
        // one possible carry: 0 <= r < 2c
        if r.hi > smax(w) {
            return None;
        }
        let kc = self.konst(w, c as u128);
        let small = self.bin(Op::Ult, rt, kc);
        let one = self.konst(w, 1);
        let q1 = self.bin(Op::Add, qt, one);
        let rc = self.bin(Op::Sub, rt, kc);
        Some((self.ite(small, qt, q1), self.ite(small, rt, rc)))
    }
    /// division and remainder by a constant
    pub fn lin_div(&mut self, op: Op, a: T, c: u128, w: u32) -> Option<T> {
        let signed = matches!(op, Op::SDiv | Op::SRem);
        let rem = matches!(op, Op::SRem | Op::URem);
        let c = if signed { sx(c, w) } else { i128::try_from(c).ok()? };
        if c <= 1 {
            return None;
        }
        let l = self.lin(a, signed)?;
        if l.t.len() == 1 && l.t[0].0 .0 == a {
            return None;
        }
        if !signed && l.lo < 0 || signed && (l.lo < smin(w) || l.hi > smax(w)) {
            return None;
        }
        if l.lo >= 0 {
            let (q, r) = self.lin_floor(&l, c, w)?;
            return Some(if rem { r } else { q });
        }
        if l.hi <= 0 {
            let m = self.lin_mul(&l, -1)?;
            let (q, r) = self.lin_floor(&m, c, w)?;
            let z = self.konst(w, 0);
            return Some(self.bin(Op::Sub, z, if rem { r } else { q }));
        }
        let (q, r) = self.lin_floor(&l, c, w)?;
        let z = self.konst(w, 0);
        let neg = self.bin(Op::Slt, a, z);
        let ex = self.bin(Op::Eq, r, z);
        let nex = self.not(ex);
        let adj = self.bin(Op::And, neg, nex);
        if rem {
            let kc = self.konst(w, c as u128 & mask(w));
            let rc = self.bin(Op::Sub, r, kc);
            Some(self.ite(adj, rc, r))
        } else {
            let one = self.konst(w, 1);
            let q1 = self.bin(Op::Add, q, one);
            Some(self.ite(adj, q1, q))
        }
    }
    /// bits lo.. of an arithmetic term as a floor division
    pub fn lin_shr(&mut self, a: T, lo: u32, w: u32) -> Option<T> {
        let aw = self.w(a);
        if lo >= 126 {
            return None;
        }
        let l = self.lin(a, false)?;
        if l.t.len() == 1 && l.t[0].0 .0 == a || l.t.is_empty() {
            return None;
        }
        if l.lo < 0 {
            return None;
        }
        let _ = aw;
        let c = 1i128 << lo;
        let (q, r) = self.lin_split(&l, c)?;
        let (m0, m1) = (r.lo.div_euclid(c), r.hi.div_euclid(c));
        if m0 != m1 {
            return None;
        }
        let q = self.mk_lin(q.t, q.k.checked_add(m0)?)?;
        Some(self.lin_term(&q, w))
    }
    /// decide a comparison from the exact difference of both sides
    pub fn lin_cmp(&mut self, op: Op, a: T, b: T) -> Option<bool> {
        let arith = |o: Op| matches!(o, Op::Add | Op::Sub | Op::Mul | Op::Concat | Op::ZExt | Op::SExt | Op::Extract);
        if !arith(self.n(a).op) && !arith(self.n(b).op) {
            return None;
        }
        let signed = match op {
            Op::Slt | Op::Sle => true,
            _ => false,
        };
        for s in [signed, true] {
            if s != signed && op != Op::Eq {
                break;
            }
            let (x, y) = match (self.lin(a, s), self.lin(b, s)) {
                (Some(x), Some(y)) => (x, y),
                _ => continue,
            };
            if x.t.len() <= 1 && y.t.len() <= 1 && x.t.first().map(|p| p.0) != y.t.first().map(|p| p.0) {
                continue;
            }
            let d = match self.lin_add(&x, &y, -1) {
                Some(d) => d,
                None => continue,
            };
            match op {
                Op::Eq => {
                    if d.lo > 0 || d.hi < 0 {
                        return Some(false);
                    }
                    if d.lo == 0 && d.hi == 0 {
                        return Some(true);
                    }
                    // common factor of all coefficients does not divide the constant
                    let mut g: i128 = 0;
                    for (_, c) in &d.t {
                        g = gcd(g, c.abs());
                    }
                    if g > 1 && d.k % g != 0 {
                        return Some(false);
                    }
                }
                Op::Ult | Op::Slt => {
                    if d.hi < 0 {
                        return Some(true);
                    }
                    if d.lo >= 0 {
                        return Some(false);
                    }
                }
                _ => {
                    if d.hi <= 0 {
                        return Some(true);
                    }
                    if d.lo > 0 {
                        return Some(false);
                    }
                }
            }
        }
        None
    }
    /// a table indexed by a small linear form that depends on one atom only
    pub fn lin_table(&mut self, w: u32, vals: &[u128], idx: T) -> Option<T> {
        let l = self.lin(idx, false)?;
        if l.t.is_empty() || l.t.len() > 4 || l.lo < 0 || l.hi >= vals.len() as i128 {
            return None;
        }
        if l.t.len() == 1 && l.t[0].1 == 1 && l.k == 0 {
            // identity or affine table
            return self.affine(w, vals, l.t[0].0, &|x| x);
        }
        let mut prod: i128 = 1;
        let mut rs = vec![];
        for (a, _) in &l.t {
            let (lo, hi) = self.atom_range(*a)?;
            prod = prod.checked_mul(hi - lo + 1)?;
            rs.push((lo, hi));
            if prod > 4096 {
                return None;
            }
        }
        // value as a function of a single atom
        for (i, (a, _)) in l.t.iter().enumerate() {
            let (lo, hi) = rs[i];
            let mut f: Vec<Option<u128>> = vec![None; (hi - lo + 1) as usize];
            let mut cur: Vec<i128> = rs.iter().map(|r| r.0).collect();
            let mut ok = true;
            'all: loop {
                let mut x = l.k;
                for (j, (_, c)) in l.t.iter().enumerate() {
                    x += c * cur[j];
                }
                let v = vals[x as usize];
                let s = &mut f[(cur[i] - lo) as usize];
                match s {
                    None => *s = Some(v),
                    Some(o) if *o != v => {
                        ok = false;
                        break 'all;
                    }
                    _ => {}
                }
                let mut j = 0;
                loop {
                    if j == cur.len() {
                        break 'all;
                    }
                    cur[j] += 1;
                    if cur[j] <= rs[j].1 {
                        break;
                    }
                    cur[j] = rs[j].0;
                    j += 1;
                }
            }
            if ok {
                let g: Vec<u128> = f.iter().map(|x| x.unwrap()).collect();
                if g.iter().all(|v| *v == g[0]) {
                    return Some(self.konst(w, g[0]));
                }
                if let Some(t) = self.affine(w, &g, *a, &|x| x - lo) {
                    return Some(t);
                }
                if lo >= 0 {
                    let mut full: Vec<u128> = vec![g[0]; lo as usize];
                    full.extend(g);
                    let aw = self.w(a.0);
                    let ix = if aw < 64 { self.zext(a.0, 64) } else { self.extract(a.0, 0, 64) };
                    return Some(self.table(w, full, ix));
                }
            }
        }
        None
    }
    /// vals[pos(x)] = x + const (mod 2^w) over the range of the atom
    fn affine(&mut self, w: u32, vals: &[u128], a: Atom, pos: &dyn Fn(i128) -> i128) -> Option<T> {
        let (lo, hi) = self.atom_range(a)?;
        if hi - lo > 4096 || pos(lo) < 0 || pos(hi) >= vals.len() as i128 {
            return None;
        }
        let k = vals[pos(lo) as usize].wrapping_sub(lo as u128) & mask(w);
        for x in lo..=hi {
            if vals[pos(x) as usize] != (k.wrapping_add(x as u128) & mask(w)) {
                return None;
            }
        }
        let l = self.mk_lin(vec![(a, 1)], k as i128)?;
        Some(self.lin_term(&l, w))
    }
}
fn gcd(a: i128, b: i128) -> i128 {
    if b == 0 {
        a
    } else {
        gcd(b, a % b)
    }
}
