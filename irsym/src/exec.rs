//! Path-exploring symbolic executor for LLVM IR.
use crate::ir::*;
use crate::smt::*;
use crate::term::{self, mask, sx, Cx, Op, NONE, T};
use std::collections::{BTreeMap, BTreeSet, HashMap};
use std::rc::Rc;
use std::time::{Duration, Instant};

#[derive(Clone, Debug)]
pub enum Val {
    C(u128),
    T(T),
    A(Rc<Vec<Val>>),
    U,
}
use Val::*;

#[derive(Clone, Copy, Debug)]
pub enum Byte {
    Un,
    C(u8),
    P(T, u8), // k-th byte of a term
}

#[derive(Clone, Debug)]
pub struct Obj {
    pub base: u64,
    pub bytes: Vec<Byte>,
    pub ro: bool,
    pub kind: Kind,
}
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Kind {
    Stack,
    Heap,
    Global,
    Buf,
}

#[derive(Clone)]
pub struct Frame {
    f: Rc<Func>,
    fid: u32,
    regs: Vec<Val>,
    blk: u32,
    prev: u32,
    pc: u32,
    allocas: Vec<u64>,
    dst: Option<u32>,
    normal: Option<u32>,
}

#[derive(Clone)]
pub struct State {
    frames: Vec<Rc<Frame>>,
    mem: BTreeMap<u64, Rc<Obj>>,
    pc: Vec<T>,
    model: Rc<HashMap<T, u128>>,
    inputs: Rc<Vec<T>>,
    next: u64,
    nundef: u32,
    steps: u64,
    expect: Option<u32>,
    watch: Rc<Vec<(u64, Vec<Byte>)>>,
    tag: String,
}

#[derive(Clone, Debug)]
pub struct Violation {
    pub kind: String,
    pub what: String,
    pub inputs: Vec<(u32, u128)>,
    pub stack: Vec<String>,
}

#[derive(Debug)]
pub enum Stop {
    /// path ended normally
    End,
    /// infeasible / assumption failed
    Cut,
    Viol(Box<Violation>),
    Fail(String),
}
type R<X> = Result<X, Stop>;
fn fail<X>(s: impl Into<String>) -> R<X> {
    Err(Stop::Fail(s.into()))
}

#[derive(Clone)]
enum Callee {
    Fun(Rc<Func>),
    Panic,
    Built(Rc<str>),
}

#[derive(Default)]
pub struct Report {
    pub paths: u64,
    pub cut: u64,
    pub panics_expected: u64,
    pub steps: u64,
    pub forks: u64,
    pub checks: BTreeMap<u32, (u64, u64)>, // line -> (times reached, discharged by solver)
    pub declared_checks: BTreeSet<u32>,
    pub covers: BTreeSet<u32>,
    pub declared_covers: BTreeSet<u32>,
    pub must_panic: BTreeMap<u32, u64>,
    pub declared_must: BTreeSet<u32>,
    pub funcs: BTreeSet<String>,
    /// functions replaced by their contract
    pub stubs: BTreeSet<String>,
    pub max_inputs: usize,
    pub samples: Vec<Vec<(u32, u128)>>,
}

pub struct Exec {
    pub m: Module,
    pub cx: Cx,
    pub s: Solver,
    pub rep: Report,
    callees: HashMap<u32, Callee>,
    gaddr: HashMap<u32, u64>,
    gnext: u64,
    glob: BTreeMap<u64, Rc<Obj>>,
    stack: Vec<State>,
    pub max_steps: u64,
    pub max_paths: u64,
    pub deadline: Option<Instant>,
    /// why there is no verdict any more
    failed: Option<String>,
    pub trace: bool,
    stubs: bool,
    stub_map: Option<HashMap<String, u32>>,
    pub trace_ins: bool,
    pub want_samples: usize,
    /// replay mode: fixed input values
    pub fixed: Option<Vec<u128>>,
    pub profile: HashMap<String, u64>,
    pub forkprof: HashMap<String, u64>,
    pub xfail: u64,
}

const FUNC_BASE: u64 = 0x7f00_0000_0000;
const GLOB_BASE: u64 = 0x1000_0000_0000;
const MEM_BASE: u64 = 0x2000_0000_0000;

impl Exec {
    pub fn new(m: Module) -> Exec {
        Exec {
            m,
            cx: Cx::new(),
            s: Solver::new(),
            rep: Report::default(),
            callees: HashMap::new(),
            gaddr: HashMap::new(),
            gnext: GLOB_BASE,
            glob: BTreeMap::new(),
            stack: vec![],
            max_steps: 50_000_000,
            max_paths: u64::MAX,
            deadline: None,
            failed: None,
            trace: false,
            stubs: false,
            stub_map: None,
            trace_ins: std::env::var("IRSYM_INS").is_ok(),
            want_samples: 3,
            fixed: None,
            profile: HashMap::new(),
            forkprof: HashMap::new(),
            xfail: 0,
        }
    }

    // ------------------------------------------------------------------ entry
    pub fn run(&mut self, name: &str) -> Result<Option<Violation>, String> {
        let id = *self.m.ids.get(name).ok_or(format!("no such harness: {}", name))?;
        let f = self.m.func(id)?;
        let fr = Frame {
            regs: vec![U; f.nregs as usize],
            f: f.clone(),
            fid: id,
            blk: 0,
            prev: 0,
            pc: 0,
            allocas: vec![],
            dst: None,
            normal: None,
        };
        self.scan_declared(&f);
        self.stack.push(State {
            frames: vec![Rc::new(fr)],
            mem: BTreeMap::new(),
            pc: vec![],
            model: Rc::new(HashMap::new()),
            inputs: Rc::new(vec![]),
            next: MEM_BASE,
            nundef: 0,
            steps: 0,
            expect: None,
            watch: Rc::new(vec![]),
            tag: String::new(),
        });
        while let Some(mut st) = self.stack.pop() {
            let r = self.run_path(&mut st);
            self.rep.steps += st.steps;
            self.rep.max_inputs = self.rep.max_inputs.max(st.inputs.len());
            match r {
                Stop::End => {
                    self.rep.paths += 1;
                    if self.rep.samples.len() < self.want_samples {
                        let s = self.input_values(&st);
                        self.rep.samples.push(s);
                    }
                    if self.trace {
                        eprintln!("path {} done: {} steps {} constraints {}", self.rep.paths, st.steps, st.pc.len(), st.tag);
                    }
                }
                Stop::Cut => self.rep.cut += 1,
                Stop::Viol(v) => {
                    self.rep.paths += 1;
                    return Ok(Some(*v));
                }
                Stop::Fail(e) => {
                    let stack = self.stack_names(&st).join(" < ");
                    let e = format!("{} [at {}]", e, stack);
                    if self.trace {
                        eprintln!("path given up: {}", e);
                    }
                    self.give_up(e);
                }
            }
            if self.rep.paths > self.max_paths {
                return Err(self.failed.take().unwrap_or("path limit reached".into()));
            }
            if let Some(d) = self.deadline {
                if Instant::now() > d {
                    return Err(self.failed.take().unwrap_or("time limit reached".into()));
                }
            }
        }
        match self.failed.take() {
            Some(e) => Err(e),
            None => Ok(None),
        }
    }
    /// a part of the exploration has no answer: the harness cannot hold any more, but a violation
    /// elsewhere is still worth a limited search
    fn give_up(&mut self, e: String) {
        if self.failed.is_none() {
            self.failed = Some(e);
            self.s.hard_ms = self.s.hard_ms.min(10000);
            let d = Instant::now() + Duration::from_secs(90);
            self.deadline = Some(self.deadline.map_or(d, |x| x.min(d)));
            self.s.deadline = self.deadline;
        }
    }
    fn stack_names(&self, st: &State) -> Vec<String> {
        st.frames.iter().rev().take(12).map(|f| demangle(&f.f.name)).collect()
    }
    fn input_values(&self, st: &State) -> Vec<(u32, u128)> {
        let mut memo = HashMap::new();
        st.inputs.iter().map(|t| (self.cx.w(*t), self.cx.eval(*t, &st.model, &mut memo).unwrap_or(0))).collect()
    }
    fn violation(&self, st: &State, kind: &str, what: String) -> Stop {
        Stop::Viol(Box::new(Violation { kind: kind.into(), what, inputs: self.input_values(st), stack: self.stack_names(st) }))
    }
    /// note the sym_check / sym_cover call sites of a function when it is first entered
    fn scan_declared(&mut self, f: &Func) {
        for b in &f.blocks {
            for i in b {
                if let I::Call { f: Opnd::G(g), args, .. } = i {
                    let n = self.m.globals[*g as usize].name.clone();
                    let idx = match n.as_str() {
                        "sym_check" => 1,
                        "sym_cover" | "sym_must_panic" => 0,
                        _ => continue,
                    };
                    if let Some((_, Opnd::C(k))) = args.get(idx) {
                        match n.as_str() {
                            "sym_check" => self.rep.declared_checks.insert(*k as u32),
                            "sym_cover" => self.rep.declared_covers.insert(*k as u32),
                            _ => self.rep.declared_must.insert(*k as u32),
                        };
                    }
                }
            }
        }
    }

    // ------------------------------------------------------------------ values
    pub fn term(&mut self, st: &mut State, v: &Val, w: u32) -> R<T> {
        match v {
            C(c) => Ok(self.cx.konst(w, *c)),
            T(t) => {
                debug_assert!(self.cx.w(*t) == w, "term width {} expected {}", self.cx.w(*t), w);
                Ok(*t)
            }
            U => Ok(self.fresh_undef(st, w)),
            A(_) => fail("aggregate used as scalar"),
        }
    }
    fn fresh_undef(&mut self, st: &mut State, w: u32) -> T {
        st.nundef += 1;
        self.cx.var(&format!("undef{}", st.nundef), w, false, 0, mask(w))
    }
    pub fn wrap(&self, t: T) -> Val {
        match self.cx.cval(t) {
            Some(c) => C(c),
            None => T(t),
        }
    }
    fn zero(ty: &Ty) -> Val {
        match ty {
            Ty::Arr(..) | Ty::Vec(..) | Ty::Struct(..) => {
                let n = ty.count();
                A(Rc::new((0..n).map(|i| Exec::zero(&ty.field(i).1)).collect()))
            }
            _ => C(0),
        }
    }
    fn opnd(&mut self, regs: &[Val], o: &Opnd) -> R<Val> {
        Ok(match o {
            Opnd::R(r) => regs[*r as usize].clone(),
            Opnd::C(c) => C(*c),
            Opnd::Undef => U,
            Opnd::Zero(t) => Exec::zero(t),
            Opnd::Agg(v) => {
                let mut out = Vec::with_capacity(v.len());
                for (_, x) in v.iter() {
                    out.push(self.opnd(regs, x)?);
                }
                A(Rc::new(out))
            }
            Opnd::Str(b) => A(Rc::new(b.iter().map(|c| C(*c as u128)).collect())),
            Opnd::G(g) => C(self.addr_of(*g)? as u128),
            Opnd::Gep(b, off) => match self.opnd(regs, b)? {
                C(c) => C((c as u64).wrapping_add(*off as u64) as u128),
                _ => return fail("gep constant"),
            },
            Opnd::Cast(op, from, to, a) => match self.opnd(regs, a)? {
                C(c) => C(match op {
                    CastOp::SExt => sx(c, *from) as u128 & mask(*to),
                    _ => c & mask(*to),
                }),
                _ => return fail("cast constant"),
            },
            Opnd::Bin(op, w, a, b) => match (self.opnd(regs, a)?, self.opnd(regs, b)?) {
                (C(x), C(y)) => C(Cx::cbin(bop(*op), *w, x, y).ok_or(Stop::Fail("const bin".into()))?),
                _ => return fail("bin constant"),
            },
            Opnd::Icmp(p, w, a, b) => match (self.opnd(regs, a)?, self.opnd(regs, b)?) {
                (C(x), C(y)) => C(icmp_c(*p, *w, x, y) as u128),
                _ => return fail("icmp constant"),
            },
            Opnd::Asm => return fail("inline asm"),
        })
    }

    // ------------------------------------------------------------------ globals
    fn addr_of(&mut self, g: u32) -> R<u64> {
        if let Some(a) = self.gaddr.get(&g) {
            return Ok(*a);
        }
        match self.m.globals[g as usize].kind {
            GKind::Define | GKind::Declare => {
                let a = FUNC_BASE + g as u64 * 16;
                self.gaddr.insert(g, a);
                Ok(a)
            }
            GKind::Alias => {
                let t = self.m.alias_target(g).map_err(Stop::Fail)?;
                let a = self.addr_of(t)?;
                self.gaddr.insert(g, a);
                Ok(a)
            }
            GKind::Var => {
                let (mutable, ty, init) = self.m.global_init(g).map_err(Stop::Fail)?;
                let size = ty.size();
                let al = 64.max(ty.align());
                let a = (self.gnext + al - 1) / al * al;
                self.gnext = a + size + 64;
                self.gaddr.insert(g, a);
                let mut bytes = vec![Byte::Un; size as usize];
                if let Some(i) = init {
                    let v = self.opnd(&[], &i)?;
                    let cx = &mut self.cx;
                    write_val(cx, &mut bytes, 0, &ty, &v)?;
                } else {
                    // external data (for example std's __rust_no_alloc_shim_is_unstable)
                    for b in bytes.iter_mut() {
                        *b = Byte::C(0);
                    }
                }
                self.glob.insert(a, Rc::new(Obj { base: a, bytes, ro: !mutable, kind: Kind::Global }));
                Ok(a)
            }
            GKind::Unknown => fail(format!("undefined symbol {}", self.m.globals[g as usize].name)),
        }
    }

    // ------------------------------------------------------------------ memory
    fn new_obj(&mut self, st: &mut State, size: u64, align: u64, kind: Kind, fill: Byte) -> u64 {
        let al = align.max(16);
        let a = (st.next + al - 1) / al * al;
        st.next = a + size + 64;
        st.mem.insert(a, Rc::new(Obj { base: a, bytes: vec![fill; size as usize], ro: false, kind }));
        a
    }
    fn find(&self, st: &State, addr: u64, size: u64) -> Option<(bool, u64)> {
        if let Some((b, o)) = st.mem.range(..=addr).next_back() {
            if addr + size <= *b + o.bytes.len() as u64 {
                return Some((true, *b));
            }
        }
        if let Some((b, o)) = self.glob.range(..=addr).next_back() {
            if addr + size <= *b + o.bytes.len() as u64 {
                return Some((false, *b));
            }
        }
        None
    }
    fn bad_access(&self, st: &State, what: &str, addr: u64, size: u64) -> Stop {
        let near = st
            .mem
            .range(..=addr)
            .next_back()
            .map(|(b, o)| format!("; nearest object {:?} of {} bytes, offset {}", o.kind, o.bytes.len(), addr - b))
            .unwrap_or_default();
        self.violation(st, "memory", format!("{} of {} byte(s) outside any live object{}", what, size, near))
    }
    fn bytes_at(&self, st: &State, addr: u64, size: u64) -> R<Vec<Byte>> {
        if size == 0 {
            return Ok(vec![]);
        }
        match self.find(st, addr, size) {
            Some((local, b)) => {
                let o = if local { &st.mem[&b] } else { &self.glob[&b] };
                let k = (addr - b) as usize;
                Ok(o.bytes[k..k + size as usize].to_vec())
            }
            None => Err(self.bad_access(st, "read", addr, size)),
        }
    }
    fn obj_mut<'a>(&mut self, st: &'a mut State, addr: u64, size: u64) -> R<&'a mut Obj> {
        match self.find(st, addr, size) {
            Some((true, b)) => Ok(Rc::make_mut(st.mem.get_mut(&b).unwrap())),
            Some((false, b)) => {
                let o = self.glob[&b].clone();
                if o.ro {
                    return Err(self.violation(st, "memory", "write to read-only data".into()));
                }
                st.mem.insert(b, o);
                Ok(Rc::make_mut(st.mem.get_mut(&b).unwrap()))
            }
            None => Err(self.bad_access(st, "write", addr, size)),
        }
    }
    pub fn byte_term(&mut self, st: &mut State, b: Byte) -> T {
        match b {
            Byte::C(c) => self.cx.konst(8, c as u128),
            Byte::P(t, k) => {
                let w = self.cx.w(t);
                let lo = k as u32 * 8;
                let n = 8.min(w - lo);
                let e = self.cx.extract(t, lo, n);
                self.cx.zext(e, 8)
            }
            Byte::Un => self.fresh_undef(st, 8),
        }
    }
    fn join(&mut self, st: &mut State, bytes: &[Byte], w: u32) -> Val {
        if bytes.iter().all(|b| matches!(b, Byte::C(_))) {
            let mut v = 0u128;
            for (i, b) in bytes.iter().enumerate() {
                if let Byte::C(c) = b {
                    v |= (*c as u128) << (8 * i);
                }
            }
            return C(v & mask(w));
        }
        if bytes.iter().all(|b| matches!(b, Byte::Un)) {
            return U;
        }
        if let Byte::P(t, 0) = bytes[0] {
            let tw = self.cx.w(t);
            if (tw + 7) / 8 == bytes.len() as u32
                && bytes.iter().enumerate().all(|(i, b)| matches!(b, Byte::P(u, k) if *u == t && *k as usize == i))
            {
                if tw == w {
                    return T(t);
                }
                let r = if tw < w { self.cx.zext(t, w) } else { self.cx.extract(t, 0, w) };
                return self.wrap(r);
            }
        }
        let mut acc: Option<T> = None;
        for b in bytes.iter() {
            let x = self.byte_term(st, *b);
            acc = Some(match acc {
                None => x,
                Some(a) => self.cx.concat(x, a),
            });
        }
        let t = acc.unwrap();
        let r = if self.cx.w(t) > w { self.cx.extract(t, 0, w) } else { t };
        self.wrap(r)
    }
    fn load_at(&mut self, st: &mut State, addr: u64, ty: &Ty) -> R<Val> {
        if ty.is_scalar() {
            let n = ty.store();
            let found = self.find(st, addr, n);
            let (local, b) = match found {
                Some(x) => x,
                None => return Err(self.bad_access(st, "read", addr, n)),
            };
            let o: Rc<Obj> = if local { st.mem[&b].clone() } else { self.glob[&b].clone() };
            let k = (addr - b) as usize;
            let r = self.join(st, &o.bytes[k..k + n as usize], ty.bits());
            return Ok(r);
        }
        let n = ty.count();
        let mut v = Vec::with_capacity(n);
        for i in 0..n {
            let (o, t) = ty.field(i);
            v.push(self.load_at(st, addr + o, &t)?);
        }
        Ok(A(Rc::new(v)))
    }
    fn store_at(&mut self, st: &mut State, addr: u64, ty: &Ty, v: &Val) -> R<()> {
        let n = ty.store();
        if n == 0 {
            return Ok(());
        }
        let o = {
            let this = &mut *self;
            match this.find(st, addr, n) {
                Some((true, b)) => Rc::make_mut(st.mem.get_mut(&b).unwrap()) as *mut Obj,
                _ => this.obj_mut(st, addr, n)? as *mut Obj,
            }
        };
        // the object stays put while its bytes are written
        let o = unsafe { &mut *o };
        if o.ro {
            return Err(self.violation(st, "memory", "write to read-only data".into()));
        }
        let k = (addr - o.base) as usize;
        write_val(&mut self.cx, &mut o.bytes, k, ty, v)
    }
    /// pick a concrete value for a term, forking off the other possibilities (the instruction is re-executed there)
    fn concretize(&mut self, st: &mut State, v: &Val, w: u32) -> R<u128> {
        match v {
            C(c) => Ok(*c),
            U => fail("undefined value used where a concrete one is needed"),
            A(_) => fail("aggregate concretised"),
            T(t) => {
                let t = *t;
                let mut memo = HashMap::new();
                let c = match self.cx.eval(t, &st.model, &mut memo) {
                    Some(c) => c,
                    None => return fail("cannot evaluate a term for concretisation"),
                };
                let k = self.cx.konst(w, c);
                let e = self.cx.eq(t, k);
                if self.cx.cval(e) == Some(1) {
                    return Ok(c);
                }
                let ne = self.cx.not(e);
                match self.s.check(&self.cx, &st.pc, &[ne]) {
                    Ans::Unsat => {}
                    Ans::Sat(m) => {
                        let mut alt = st.clone();
                        self.assume_with(&mut alt, ne, m);
                        self.count_fork(st);
                        self.stack.push(alt);
                    }
                    Ans::Unknown => return fail("solver gave no answer (concretisation)"),
                }
                st.pc.push(e);
                Ok(c)
            }
        }
    }
    fn count_fork(&mut self, st: &State) {
        self.rep.forks += 1;
        if self.trace {
            let n = st.frames.iter().rev().take(3).map(|f| demangle(&f.f.name)).collect::<Vec<_>>().join(" < ");
            *self.forkprof.entry(n).or_insert(0) += 1;
        }
    }
    fn assume_with(&mut self, st: &mut State, c: T, m: Rc<HashMap<T, u128>>) {
        st.pc.push(c);
        if !m.is_empty() {
            let mut mm = (*st.model).clone();
            for (k, v) in m.iter() {
                mm.insert(*k, *v);
            }
            st.model = Rc::new(mm);
        }
    }
    fn model_says(&self, st: &State, c: T) -> Option<bool> {
        let mut memo = HashMap::new();
        self.cx.eval(c, &st.model, &mut memo).map(|v| v == 1)
    }
    /// decide a branch; a feasible other side is handed to `mk` to build the alternative state
    fn branch(&mut self, st: &mut State, c: T, mk: impl FnOnce(&mut State, bool)) -> R<bool> {
        match self.cx.cval(c) {
            Some(1) => return Ok(true),
            Some(_) => return Ok(false),
            None => {}
        }
        let nc = self.cx.not(c);
        let here = match self.model_says(st, c) {
            Some(b) => b,
            None => match self.s.check(&self.cx, &st.pc, &[c]) {
                Ans::Sat(m) => {
                    let mut mm = (*st.model).clone();
                    for (k, v) in m.iter() {
                        mm.insert(*k, *v);
                    }
                    st.model = Rc::new(mm);
                    true
                }
                Ans::Unsat => false,
                Ans::Unknown => return fail("solver gave no answer (branch)"),
            },
        };
        let (mine, other) = if here { (c, nc) } else { (nc, c) };
        match self.s.check(&self.cx, &st.pc, &[other]) {
            Ans::Unsat => {}
            Ans::Sat(m) => {
                let mut alt = st.clone();
                self.assume_with(&mut alt, other, m);
                mk(&mut alt, !here);
                self.count_fork(st);
                self.stack.push(alt);
                st.pc.push(mine);
            }
            Ans::Unknown => {
                let stack = self.stack_names(st).join(" < ");
                self.give_up(format!("solver gave no answer (branch) [at {}]", stack));
                st.pc.push(mine);
            }
        }
        Ok(here)
    }
    /// resolve a pointer operand to a concrete address (forking when needed)
    fn caddr(&mut self, st: &mut State, v: &Val) -> R<u64> {
        match v {
            C(c) => Ok(*c as u64),
            U => Err(self.violation(st, "memory", "access through an undefined pointer".into())),
            _ => Ok(self.concretize(st, v, 64)? as u64),
        }
    }
    fn load_sym(&mut self, st: &mut State, t: T, ty: &Ty) -> R<Val> {
        if !ty.is_scalar() {
            let a = self.concretize(st, &T(t), 64)? as u64;
            return self.load_at(st, a, ty);
        }
        let n = ty.store();
        let mut memo = HashMap::new();
        let a0 = match self.cx.eval(t, &st.model, &mut memo) {
            Some(a) => a as u64,
            None => return fail("cannot evaluate address"),
        };
        let (local, b) = match self.find(st, a0, n) {
            Some(x) => x,
            None => return Err(self.bad_access(st, "read", a0, n)),
        };
        let o: Rc<Obj> = if local { st.mem[&b].clone() } else { self.glob[&b].clone() };
        let kb = self.cx.konst(64, b as u128);
        let off = self.cx.bin(Op::Sub, t, kb);
        let lim = o.bytes.len() as u64 - n;
        let kl = self.cx.konst(64, lim as u128);
        let inb = self.cx.ule(off, kl);
        if !self.branch(st, inb, |_, _| {})? {
            // the alternative state re-executes the load inside the object
            return Err(self.bad_access(st, "read", a0, n));
        }
        let r = self.cx.r(off);
        let kz = self.cx.kz(off, 6);
        let sh = (!kz).trailing_zeros().min(12);
        let lo = (r.ulo as u64) >> sh;
        let hi = (r.uhi.min(lim as u128) as u64) >> sh;
        let count = hi - lo + 1;
        let w = ty.bits();
        if count <= 8192 {
            let mut vals = Vec::with_capacity(hi as usize + 1);
            let mut all = true;
            for i in 0..=hi {
                if i < lo {
                    vals.push(0);
                    continue;
                }
                let k = (i << sh) as usize;
                let mut v = 0u128;
                for j in 0..n as usize {
                    match o.bytes[k + j] {
                        Byte::C(c) => v |= (c as u128) << (8 * j),
                        Byte::Un => {}
                        _ => all = false,
                    }
                }
                vals.push(v & mask(w));
            }
            let ks = self.cx.konst(64, sh as u128);
            let idx = self.cx.bin(Op::LShr, off, ks);
            if all {
                for i in 0..lo as usize {
                    vals[i] = vals[lo as usize];
                }
                let r = self.cx.table(w, vals, idx);
                return Ok(self.wrap(r));
            }
            if count <= 160 {
                let mut acc: Option<T> = None;
                for i in (lo..=hi).rev() {
                    let k = (i << sh) as usize;
                    let v = self.join(st, &o.bytes[k..k + n as usize], w);
                    let v = self.term(st, &v, w)?;
                    acc = Some(match acc {
                        None => v,
                        Some(a) => {
                            let ki = self.cx.konst(64, i as u128);
                            let e = self.cx.eq(idx, ki);
                            self.cx.ite(e, v, a)
                        }
                    });
                }
                return Ok(self.wrap(acc.unwrap()));
            }
        }
        let a = self.concretize(st, &T(t), 64)? as u64;
        self.load_at(st, a, ty)
    }

    // ------------------------------------------------------------------ main loop
    fn run_path(&mut self, st: &mut State) -> Stop {
        loop {
            if st.steps & 0xffff == 0xffff {
                if let Some(d) = self.deadline {
                    if Instant::now() > d {
                        return Stop::Fail("time limit reached".into());
                    }
                }
            }
            if st.steps > self.max_steps {
                return self.violation(st, "nontermination", format!("no result after {} IR instructions", self.max_steps));
            }
            st.steps += 1;
            match self.step(st) {
                Ok(()) => {}
                Err(s) => return s,
            }
        }
    }
    fn top<'a>(&self, st: &'a mut State) -> &'a mut Frame {
        Rc::make_mut(st.frames.last_mut().unwrap())
    }
    fn set(&self, st: &mut State, d: u32, v: Val) {
        let f = self.top(st);
        f.regs[d as usize] = v;
        f.pc += 1;
    }
    fn jump(&mut self, st: &mut State, to: u32) -> R<()> {
        let f = Rc::make_mut(st.frames.last_mut().unwrap());
        f.prev = f.blk;
        f.blk = to;
        f.pc = 0;
        let func = f.f.clone();
        // phis execute in parallel
        let mut vals: Vec<(u32, Val)> = vec![];
        let mut n = 0;
        let prev = f.prev;
        for i in &func.blocks[to as usize] {
            if let I::Phi { d, ins, .. } = i {
                let o = ins.iter().find(|(l, _)| *l == prev).ok_or(Stop::Fail("phi without predecessor".into()))?;
                let regs = unsafe { &*(&st.frames.last().unwrap().regs as *const Vec<Val>) };
                let v = self.opnd(regs, &o.1)?;
                vals.push((*d, v));
                n += 1;
            } else {
                break;
            }
        }
        let f = Rc::make_mut(st.frames.last_mut().unwrap());
        for (d, v) in vals {
            f.regs[d as usize] = v;
        }
        f.pc = n;
        Ok(())
    }
    fn step(&mut self, st: &mut State) -> R<()> {
        let fr = st.frames.last().unwrap();
        let func = fr.f.clone();
        let blk = &func.blocks[fr.blk as usize];
        if fr.pc as usize >= blk.len() {
            return fail(format!("fell off a block in {}", func.name));
        }
        let ins = &blk[fr.pc as usize];
        if self.trace_ins {
            eprintln!("{} b{}.{} {:?}", func.name, fr.blk, fr.pc, ins);
        }
        // registers are only replaced after operands were read
        let regs: &[Val] = unsafe { &*(fr.regs.as_slice() as *const [Val]) };
        macro_rules! op {
            ($o:expr) => {
                match $o {
                    Opnd::R(r) => regs[*r as usize].clone(),
                    Opnd::C(c) => C(*c),
                    o => self.opnd(regs, o)?,
                }
            };
        }
        match ins {
            I::Alloca { d, size, align, n } => {
                let n = op!(n);
                let n = match n {
                    C(c) => c as u64,
                    _ => return fail("dynamic alloca"),
                };
                let a = self.new_obj(st, size * n, *align, Kind::Stack, Byte::Un);
                self.top(st).allocas.push(a);
                self.set(st, *d, C(a as u128));
            }
            I::Load { d, ty, p } => {
                let p = op!(p);
                let v = match p {
                    C(a) => self.load_at(st, a as u64, ty)?,
                    T(t) => self.load_sym(st, t, ty)?,
                    _ => return Err(self.violation(st, "memory", "load through an undefined pointer".into())),
                };
                self.set(st, *d, v);
            }
            I::Store { ty, v, p } => {
                let p = op!(p);
                let v = op!(v);
                let a = self.caddr(st, &p)?;
                self.store_at(st, a, ty, &v)?;
                self.top(st).pc += 1;
            }
            I::Gep { d, base, off, idx } => {
                let b = op!(base);
                let r = if let (C(c), true) = (&b, idx.is_empty()) {
                    C((*c as u64).wrapping_add(*off as u64) as u128)
                } else {
                    let mut k = *off as u64;
                    let mut acc: Option<T> = None;
                    match b {
                        C(c) => k = k.wrapping_add(c as u64),
                        v => acc = Some(self.term(st, &v, 64)?),
                    }
                    for (o, w, s) in idx {
                        match op!(o) {
                            C(c) => k = k.wrapping_add((sx(c, *w) as i64).wrapping_mul(*s) as u64),
                            v => {
                                let t = self.term(st, &v, *w)?;
                                let t = if *w < 64 { self.cx.sext(t, 64) } else { t };
                                let ks = self.cx.konst(64, *s as u64 as u128);
                                let m = self.cx.bin(Op::Mul, t, ks);
                                acc = Some(match acc {
                                    None => m,
                                    Some(a) => self.cx.bin(Op::Add, a, m),
                                });
                            }
                        }
                    }
                    match acc {
                        None => C(k as u128),
                        Some(a) => {
                            let kt = self.cx.konst(64, k as u128);
                            let r = self.cx.bin(Op::Add, a, kt);
                            self.wrap(r)
                        }
                    }
                };
                self.set(st, *d, r);
            }
            I::Bin { d, op, ty, a, b } => {
                let x = op!(a);
                let y = op!(b);
                let v = self.binop(st, *op, ty, &x, &y)?;
                self.set(st, *d, v);
            }
            I::FNeg { d, ty, a } => {
                let x = op!(a);
                let w = ty.bits();
                let s = 1u128 << (w - 1);
                let v = match x {
                    C(c) => C(c ^ s),
                    x => {
                        let t = self.term(st, &x, w)?;
                        let k = self.cx.konst(w, s);
                        let r = self.cx.bin(Op::Xor, t, k);
                        self.wrap(r)
                    }
                };
                self.set(st, *d, v);
            }
            I::Icmp { d, p, ty, a, b } => {
                let x = op!(a);
                let y = op!(b);
                let v = self.icmp(st, *p, ty, &x, &y)?;
                self.set(st, *d, v);
            }
            I::Fcmp { d, p, ty, a, b } => {
                let x = op!(a);
                let y = op!(b);
                let w = ty.bits();
                let x = self.term(st, &x, w)?;
                let y = self.term(st, &y, w)?;
                let c = &mut self.cx;
                let na = c.f_is_nan(x);
                let nb = c.f_is_nan(y);
                let uno = c.or(na, nb);
                let base = match &p[1..] {
                    "eq" => c.f_cmp(Op::Eq, x, y),
                    "ne" => {
                        let e = c.f_cmp(Op::Eq, x, y);
                        let ne = c.not(e);
                        let o = c.not(uno);
                        c.and(ne, o)
                    }
                    "lt" => c.f_cmp(Op::Ult, x, y),
                    "le" => c.f_cmp(Op::Ule, x, y),
                    "gt" => c.f_cmp(Op::Ult, y, x),
                    "ge" => c.f_cmp(Op::Ule, y, x),
                    "rd" | "no" => c.fls(),
                    _ => return fail(format!("fcmp {}", p)),
                };
                let r = match p.as_str() {
                    "ord" => c.not(uno),
                    "uno" => uno,
                    "true" | "false" => return fail("fcmp const"),
                    _ if p.starts_with('u') => c.or(base, uno),
                    _ => base,
                };
                let v = self.wrap(r);
                self.set(st, *d, v);
            }
            I::Cast { d, op, from, to, a } => {
                let x = op!(a);
                let v = self.cast(st, *op, from, to, &x)?;
                self.set(st, *d, v);
            }
            I::Select { d, c, cty, ty, a, b } => {
                let cv = op!(c);
                let x = op!(a);
                let y = op!(b);
                if let Ty::Vec(n, _) = cty {
                    let cs = elems(&cv, *n as usize);
                    let (xs, ys) = (elems(&x, *n as usize), elems(&y, *n as usize));
                    let et = ty.field(0).1;
                    let mut out = vec![];
                    for i in 0..*n as usize {
                        let ct = self.term(st, &cs[i], 1)?;
                        out.push(self.select(st, ct, &et, &xs[i], &ys[i])?);
                    }
                    self.set(st, *d, A(Rc::new(out)));
                    return Ok(());
                }
                let v = match cv {
                    C(1) => x,
                    C(_) => y,
                    cv => {
                        let t = self.term(st, &cv, 1)?;
                        if matches!(ty, Ty::Ptr) && !same(&x, &y) {
                            // choosing between pointers: decide the condition
                            let here = self.branch(st, t, |_, _| {})?;
                            if here {
                                x
                            } else {
                                y
                            }
                        } else {
                            self.select(st, t, ty, &x, &y)?
                        }
                    }
                };
                self.set(st, *d, v);
            }
            I::Extract { d, a, path } => {
                let mut v = op!(a);
                for i in path {
                    v = match v {
                        A(x) => x[*i as usize].clone(),
                        U => U,
                        _ => return fail("extractvalue of scalar"),
                    };
                }
                self.set(st, *d, v);
            }
            I::Insert { d, ty, a, v, path } => {
                let x = op!(a);
                let v = op!(v);
                let r = insert(ty, x, v, path);
                self.set(st, *d, r);
            }
            I::ExtractEl { d, ty, a, i } => {
                let x = op!(a);
                let i = op!(i);
                let i = self.concretize(st, &i, 64)? as usize;
                let v = elems(&x, ty.count())[i].clone();
                self.set(st, *d, v);
            }
            I::InsertEl { d, ty, a, v, i } => {
                let x = op!(a);
                let v = op!(v);
                let i = op!(i);
                let i = self.concretize(st, &i, 64)? as usize;
                let mut e = elems(&x, ty.count());
                e[i] = v;
                self.set(st, *d, A(Rc::new(e)));
            }
            I::Shuffle { d, ty, a, b, mask } => {
                let n = ty.count();
                let x = elems(&op!(a), n);
                let y = elems(&op!(b), n);
                let out: Vec<Val> = mask
                    .iter()
                    .map(|k| {
                        if *k < 0 {
                            U
                        } else if (*k as usize) < n {
                            x[*k as usize].clone()
                        } else {
                            y[*k as usize - n].clone()
                        }
                    })
                    .collect();
                self.set(st, *d, A(Rc::new(out)));
            }
            I::Freeze { d, a } => {
                let x = op!(a);
                self.set(st, *d, x);
            }
            I::Phi { .. } => return fail("phi in the middle of a block"),
            I::Br(l) => return self.jump(st, *l),
            I::CBr(c, a, b) => {
                let cv = op!(c);
                match cv {
                    C(1) => return self.jump(st, *a),
                    C(_) => return self.jump(st, *b),
                    cv => {
                        let t = self.term(st, &cv, 1)?;
                        // the alternative re-executes the branch with its condition recorded in the path
                        let (a, b) = (*a, *b);
                        let here = self.branch(st, t, |alt, side| {
                            alt.tag.clear();
                            let f = Rc::make_mut(alt.frames.last_mut().unwrap());
                            // mark: resume by jumping
                            f.pc = u32::MAX;
                            f.blk = f.blk;
                            alt.tag.push_str(&format!("J{}", if side { a } else { b }));
                        })?;
                        // resolve pending jumps of the alternative state
                        if let Some(alt) = self.stack.last() {
                            if alt.tag.starts_with('J') {
                                let mut alt = self.stack.pop().unwrap();
                                let l: u32 = alt.tag[1..].parse().unwrap();
                                alt.tag.clear();
                                self.jump(&mut alt, l)?;
                                self.stack.push(alt);
                            }
                        }
                        return self.jump(st, if here { a } else { b });
                    }
                }
            }
            I::Switch { w, v, def, cases } => {
                let x = op!(v);
                match x {
                    C(c) => {
                        let l = cases.iter().find(|(k, _)| *k == c).map(|(_, l)| *l).unwrap_or(*def);
                        return self.jump(st, l);
                    }
                    x => {
                        let t = self.term(st, &x, *w)?;
                        // target of the current model, other targets are forked off
                        let mut by_target: Vec<(u32, Vec<u128>)> = vec![];
                        for (k, l) in cases.iter() {
                            match by_target.iter_mut().find(|(m, _)| m == l) {
                                Some((_, v)) => v.push(*k),
                                None => by_target.push((*l, vec![*k])),
                            }
                        }
                        let mut conds: Vec<(u32, T)> = vec![];
                        let mut none = self.cx.tru();
                        for (l, ks) in &by_target {
                            let mut any = self.cx.fls();
                            for k in ks {
                                let kt = self.cx.konst(*w, *k);
                                let e = self.cx.eq(t, kt);
                                any = self.cx.or(any, e);
                            }
                            let na = self.cx.not(any);
                            none = self.cx.and(none, na);
                            conds.push((*l, any));
                        }
                        conds.push((*def, none));
                        let mut mine: Option<(u32, T)> = None;
                        for (l, c) in conds {
                            if self.cx.cval(c) == Some(0) {
                                continue;
                            }
                            if mine.is_none() && self.model_says(st, c) == Some(true) {
                                mine = Some((l, c));
                                continue;
                            }
                            match self.s.check(&self.cx, &st.pc, &[c]) {
                                Ans::Unsat => {}
                                Ans::Sat(m) => {
                                    let mut alt = st.clone();
                                    self.assume_with(&mut alt, c, m);
                                    self.jump(&mut alt, l)?;
                                    self.count_fork(st);
                                    self.stack.push(alt);
                                }
                                Ans::Unknown => return fail("solver gave no answer (switch)"),
                            }
                        }
                        match mine {
                            Some((l, c)) => {
                                if self.cx.cval(c).is_none() {
                                    st.pc.push(c);
                                }
                                return self.jump(st, l);
                            }
                            None => return Err(Stop::Cut), // all feasible targets were forked off
                        }
                    }
                }
            }
            I::Ret(ty, v) => {
                let v = if *ty == Ty::Void { U } else { op!(v) };
                let f = st.frames.pop().unwrap();
                for a in &f.allocas {
                    st.mem.remove(a);
                }
                if st.frames.is_empty() {
                    return Err(Stop::End);
                }
                if let Some(d) = f.dst {
                    let t = self.top(st);
                    t.regs[d as usize] = v;
                }
                match f.normal {
                    Some(l) => return self.jump(st, l),
                    None => self.top(st).pc += 1,
                }
            }
            I::Unreachable => return Err(self.violation(st, "undefined", "reached code the compiler assumes unreachable".into())),
            I::Call { d, ret, f, args, normal } => {
                let gid = match f {
                    Opnd::G(g) => *g,
                    o => {
                        let a = op!(o);
                        let a = self.caddr(st, &a)?;
                        if a < FUNC_BASE || (a - FUNC_BASE) / 16 >= self.m.globals.len() as u64 {
                            return Err(self.violation(st, "memory", "call through an invalid function pointer".into()));
                        }
                        ((a - FUNC_BASE) / 16) as u32
                    }
                };
                let callee = self.resolve(gid)?;
                match callee {
                    Callee::Fun(fu) => {
                        if self.trace {
                            *self.profile.entry(fu.name.clone()).or_insert(0) += 1;
                        }
                        let mut r = vec![U; fu.nregs as usize];
                        for (i, (_, o)) in args.iter().enumerate() {
                            if i < fu.params.len() {
                                r[fu.params[i] as usize] = op!(o);
                            }
                        }
                        if st.frames.len() > 300 {
                            return fail("call depth");
                        }
                        st.frames.push(Rc::new(Frame {
                            f: fu,
                            fid: gid,
                            regs: r,
                            blk: 0,
                            prev: 0,
                            pc: 0,
                            allocas: vec![],
                            dst: *d,
                            normal: *normal,
                        }));
                    }
                    Callee::Panic => return Err(self.panic(st, gid, args, regs)),
                    Callee::Built(n) => {
                        let mut av = Vec::with_capacity(args.len());
                        for (t, o) in args.iter() {
                            av.push(if *t == Ty::Other { U } else { op!(o) });
                        }
                        let v = self.builtin(st, &n, ret, args, &av)?;
                        if let Some(d) = d {
                            self.top(st).regs[*d as usize] = v;
                        }
                        match normal {
                            Some(l) => return self.jump(st, *l),
                            None => self.top(st).pc += 1,
                        }
                    }
                }
            }
            I::Rmw { d, op, w, p, v } => {
                let p = op!(p);
                let v = op!(v);
                let a = self.caddr(st, &p)?;
                let ty = Ty::Int(*w);
                let old = self.load_at(st, a, &ty)?;
                let o = self.term(st, &old, *w)?;
                let x = self.term(st, &v, *w)?;
                let n = match op.as_str() {
                    "xchg" => x,
                    "add" => self.cx.bin(Op::Add, o, x),
                    "sub" => self.cx.bin(Op::Sub, o, x),
                    "and" => self.cx.bin(Op::And, o, x),
                    "or" => self.cx.bin(Op::Or, o, x),
                    _ => return fail(format!("atomicrmw {}", op)),
                };
                let nv = self.wrap(n);
                self.store_at(st, a, &ty, &nv)?;
                self.set(st, *d, old);
            }
            I::CmpXchg { d, w, p, c, n } => {
                let p = op!(p);
                let c = op!(c);
                let n = op!(n);
                let a = self.caddr(st, &p)?;
                let ty = Ty::Int(*w);
                let old = self.load_at(st, a, &ty)?;
                let o = self.concretize(st, &old, *w)?;
                let c = self.concretize(st, &c, *w)?;
                if o == c {
                    self.store_at(st, a, &ty, &n)?;
                }
                self.set(st, *d, A(Rc::new(vec![C(o), C((o == c) as u128)])));
            }
            I::Nop => self.top(st).pc += 1,
            I::Unsupported(s) => return fail(format!("unsupported instruction: {}", s)),
        }
        Ok(())
    }
    fn select(&mut self, st: &mut State, c: T, ty: &Ty, x: &Val, y: &Val) -> R<Val> {
        match self.cx.cval(c) {
            Some(1) => return Ok(x.clone()),
            Some(_) => return Ok(y.clone()),
            None => {}
        }
        if let (C(a), C(b)) = (x, y) {
            if a == b {
                return Ok(C(*a));
            }
        }
        if ty.is_scalar() {
            let w = ty.bits();
            let a = self.term(st, x, w)?;
            let b = self.term(st, y, w)?;
            let r = self.cx.ite(c, a, b);
            return Ok(self.wrap(r));
        }
        let n = ty.count();
        let (xs, ys) = (elems(x, n), elems(y, n));
        let mut out = vec![];
        for i in 0..n {
            let t = ty.field(i).1;
            out.push(self.select(st, c, &t, &xs[i], &ys[i])?);
        }
        Ok(A(Rc::new(out)))
    }
    fn lanes(&mut self, st: &mut State, ty: &Ty, a: &Val, b: &Val, f: &mut dyn FnMut(&mut Exec, &mut State, &Ty, &Val, &Val) -> R<Val>) -> R<Val> {
        let n = ty.count();
        let et = ty.field(0).1;
        let (xs, ys) = (elems(a, n), elems(b, n));
        let mut out = Vec::with_capacity(n);
        for i in 0..n {
            out.push(f(self, st, &et, &xs[i], &ys[i])?);
        }
        Ok(A(Rc::new(out)))
    }
    fn binop(&mut self, st: &mut State, op: BinOp, ty: &Ty, a: &Val, b: &Val) -> R<Val> {
        if let Ty::Vec(..) = ty {
            return self.lanes(st, ty, a, b, &mut |e, st, t, x, y| e.binop(st, op, t, x, y));
        }
        let w = ty.bits();
        let o = bop(op);
        if let (C(x), C(y)) = (a, b) {
            let r = if matches!(o, Op::FAdd | Op::FSub | Op::FMul | Op::FDiv | Op::FRem) {
                term::feval(o, w, w, 0, *x, *y)
            } else {
                Cx::cbin(o, w, *x, *y)
            };
            return match r {
                Some(v) => Ok(C(v)),
                None => Err(self.violation(st, "undefined", "division by zero".into())),
            };
        }
        let x = self.term(st, a, w)?;
        let y = self.term(st, b, w)?;
        let r = if matches!(o, Op::FAdd | Op::FSub | Op::FMul | Op::FDiv | Op::FRem) {
            self.cx.fop(o, w, 0, x, y)
        } else {
            self.cx.bin(o, x, y)
        };
        Ok(self.wrap(r))
    }
    fn icmp(&mut self, st: &mut State, p: Pred, ty: &Ty, a: &Val, b: &Val) -> R<Val> {
        if let Ty::Vec(..) = ty {
            return self.lanes(st, ty, a, b, &mut |e, st, t, x, y| e.icmp(st, p, t, x, y));
        }
        let w = ty.bits();
        if let (C(x), C(y)) = (a, b) {
            return Ok(C(icmp_c(p, w, *x, *y) as u128));
        }
        let x = self.term(st, a, w)?;
        let y = self.term(st, b, w)?;
        let c = &mut self.cx;
        let r = match p {
            Pred::Eq => c.eq(x, y),
            Pred::Ne => {
                let e = c.eq(x, y);
                c.not(e)
            }
            Pred::Ult => c.ult(x, y),
            Pred::Ule => c.ule(x, y),
            Pred::Ugt => c.ult(y, x),
            Pred::Uge => c.ule(y, x),
            Pred::Slt => c.slt(x, y),
            Pred::Sle => c.sle(x, y),
            Pred::Sgt => c.slt(y, x),
            Pred::Sge => c.sle(y, x),
        };
        Ok(self.wrap(r))
    }
    fn cast(&mut self, st: &mut State, op: CastOp, from: &Ty, to: &Ty, a: &Val) -> R<Val> {
        if op == CastOp::Bit && (matches!(from, Ty::Vec(..)) || matches!(to, Ty::Vec(..))) {
            // through memory layout
            let n = from.store() as usize;
            let mut bytes = vec![Byte::Un; n];
            if let (Ty::Vec(k, e), Ty::Int(w)) = (from, to) {
                if **e == Ty::Int(1) {
                    // mask vector
                    let xs = elems(a, *k as usize);
                    let mut acc: Option<T> = None;
                    for x in xs {
                        let t = self.term(st, &x, 1)?;
                        acc = Some(match acc {
                            None => t,
                            Some(p) => self.cx.concat(t, p),
                        });
                    }
                    let _ = w;
                    let t = acc.unwrap();
                    return Ok(self.wrap(t));
                }
            }
            write_val(&mut self.cx, &mut bytes, 0, from, a)?;
            return match to {
                Ty::Vec(k, e) => {
                    let s = e.store() as usize;
                    let mut out = vec![];
                    for i in 0..*k as usize {
                        out.push(self.join(st, &bytes[i * s..i * s + s], e.bits()));
                    }
                    Ok(A(Rc::new(out)))
                }
                _ => Ok(self.join(st, &bytes, to.bits())),
            };
        }
        if let (Ty::Vec(n, fe), Ty::Vec(_, te)) = (from, to) {
            let xs = elems(a, *n as usize);
            let mut out = vec![];
            for x in xs {
                out.push(self.cast(st, op, fe, te, &x)?);
            }
            return Ok(A(Rc::new(out)));
        }
        if let U = a {
            return Ok(U);
        }
        let (fw, tw) = (from.bits(), to.bits());
        if let C(c) = a {
            return Ok(C(match op {
                CastOp::ZExt => *c,
                CastOp::SExt => sx(*c, fw) as u128 & mask(tw),
                CastOp::Trunc | CastOp::Bit => *c & mask(tw),
                CastOp::FpToSi => term::feval(Op::FToSI, tw, fw, 0, *c, 0).unwrap(),
                CastOp::FpToUi => term::feval(Op::FToUI, tw, fw, 0, *c, 0).unwrap(),
                CastOp::SiToFp => term::feval(Op::SIToF, tw, fw, 0, *c, 0).unwrap(),
                CastOp::UiToFp => term::feval(Op::UIToF, tw, fw, 0, *c, 0).unwrap(),
                CastOp::FpExt | CastOp::FpTrunc => term::feval(Op::FToF, tw, fw, 0, *c, 0).unwrap(),
            }));
        }
        let t = self.term(st, a, fw)?;
        let c = &mut self.cx;
        let r = match op {
            CastOp::ZExt => c.zext(t, tw),
            CastOp::SExt => c.sext(t, tw),
            CastOp::Trunc => c.trunc(t, tw),
            CastOp::Bit => {
                if tw > fw {
                    c.zext(t, tw)
                } else {
                    c.trunc(t, tw)
                }
            }
            CastOp::FpToSi => c.fop(Op::FToSI, tw, 0, t, NONE),
            CastOp::FpToUi => c.fop(Op::FToUI, tw, 0, t, NONE),
            CastOp::SiToFp => c.fop(Op::SIToF, tw, 0, t, NONE),
            CastOp::UiToFp => c.fop(Op::UIToF, tw, 0, t, NONE),
            CastOp::FpExt | CastOp::FpTrunc => c.fop(Op::FToF, tw, 0, t, NONE),
        };
        Ok(self.wrap(r))
    }

    // ------------------------------------------------------------------ calls
    /// harness function "stub$a$b$c" standing in for a::b::c
    fn stub_for(&mut self, n: &str) -> Option<u32> {
        if !self.stubs || !n.starts_with("_ZN") {
            return None;
        }
        if self.stub_map.is_none() {
            let mut m = HashMap::new();
            for (i, g) in self.m.globals.iter().enumerate() {
                if let Some(x) = g.name.strip_prefix("stub$") {
                    m.insert(plain(&x.replace('$', "::")), i as u32);
                }
            }
            self.stub_map = Some(m);
        }
        self.stub_map.as_ref().unwrap().get(&plain(&demangle(n))).copied()
    }
    fn resolve(&mut self, g: u32) -> R<Callee> {
        if let Some(c) = self.callees.get(&g) {
            return Ok(c.clone());
        }
        let gl = self.m.globals[g as usize].clone();
        let n = gl.name.as_str();
        let c = if is_panic(n) {
            Callee::Panic
        } else if n.starts_with("sym_")
            || n.starts_with("llvm.")
            || matches!(
                n,
                "__rust_alloc" | "__rust_dealloc" | "__rust_realloc" | "__rust_alloc_zeroed" | "memcpy" | "memmove" | "memset"
            )
            || (gl.kind != GKind::Define && gl.kind != GKind::Alias)
        {
            Callee::Built(Rc::from(n))
        } else if let Some(s) = self.stub_for(n) {
            self.rep.stubs.insert(demangle(n));
            let c = self.resolve(s)?;
            self.callees.insert(g, c.clone());
            return Ok(c);
        } else {
            let mut id = g;
            while self.m.globals[id as usize].kind == GKind::Alias {
                id = self.m.alias_target(id).map_err(Stop::Fail)?;
            }
            if id != g {
                let c = self.resolve(id)?;
                self.callees.insert(g, c.clone());
                return Ok(c);
            }
            let f = self.m.func(id).map_err(Stop::Fail)?;
            self.rep.funcs.insert(f.name.clone());
            self.scan_declared(&f);
            Callee::Fun(f)
        };
        self.callees.insert(g, c.clone());
        Ok(c)
    }
    fn panic(&mut self, st: &mut State, g: u32, args: &[(Ty, Opnd)], regs: &[Val]) -> Stop {
        if let Some(id) = st.expect {
            // rejected as required; nothing under watch may have changed
            let watch = st.watch.clone();
            for (addr, old) in watch.iter() {
                let now = match self.bytes_at(st, *addr, old.len() as u64) {
                    Ok(b) => b,
                    Err(e) => return e,
                };
                for (i, (x, y)) in old.iter().zip(now.iter()).enumerate() {
                    let a = self.byte_term_w(*x);
                    let b = self.byte_term_w(*y);
                    let (a, b) = match (a, b) {
                        (Some(a), Some(b)) => (a, b),
                        (None, None) => continue,
                        _ => return self.violation(st, "watch", format!("byte {} of the watched memory was written before the rejection (panic expectation {})", i, id)),
                    };
                    let e = self.cx.eq(a, b);
                    let ne = self.cx.not(e);
                    match self.s.check(&self.cx, &st.pc, &[ne]) {
                        Ans::Unsat => {}
                        Ans::Sat(m) => {
                            self.assume_with(st, ne, m);
                            return self.violation(st, "watch", format!("byte {} of the watched memory was changed before the rejection (panic expectation {})", i, id));
                        }
                        Ans::Unknown => return Stop::Fail("solver gave no answer (watch)".into()),
                    }
                }
            }
            *self.rep.must_panic.entry(id).or_insert(0) += 1;
            self.rep.panics_expected += 1;
            return Stop::End;
        }
        let name = demangle(&self.m.globals[g as usize].name.clone());
        let mut msg = String::new();
        for (t, o) in args.iter() {
            if *t == Ty::Ptr {
                if let Ok(C(a)) = self.opnd(regs, o) {
                    if let Some(s) = self.describe(st, a as u64) {
                        msg.push_str(&format!(" {}", s));
                    }
                }
            }
        }
        self.violation(st, "panic", format!("{}{}", name, msg))
    }
    fn byte_term_w(&mut self, b: Byte) -> Option<T> {
        match b {
            Byte::Un => None,
            Byte::C(c) => Some(self.cx.konst(8, c as u128)),
            Byte::P(t, k) => {
                let w = self.cx.w(t);
                let lo = k as u32 * 8;
                let e = self.cx.extract(t, lo, 8.min(w - lo));
                Some(self.cx.zext(e, 8))
            }
        }
    }
    /// best-effort: a panic Location, a format Arguments' first piece or a string constant
    fn describe(&mut self, st: &State, a: u64) -> Option<String> {
        let rd = |e: &Exec, a: u64| -> Option<u64> {
            let b = e.bytes_at(st, a, 8).ok()?;
            let mut v = 0u64;
            for (i, x) in b.iter().enumerate() {
                match x {
                    Byte::C(c) => v |= (*c as u64) << (8 * i),
                    _ => return None,
                }
            }
            Some(v)
        };
        let text = |e: &Exec, p: u64, n: u64| -> Option<String> {
            if n > 400 {
                return None;
            }
            let b = e.bytes_at(st, p, n).ok()?;
            let mut v = vec![];
            for x in b {
                match x {
                    Byte::C(c) => v.push(c),
                    _ => return None,
                }
            }
            String::from_utf8(v).ok()
        };
        let p = rd(self, a)?;
        let n = rd(self, a + 8)?;
        if let Some(s) = text(self, p, n) {
            if s.ends_with(".rs") {
                let lc = rd(self, a + 16)?;
                return Some(format!("at {}:{}", s, lc as u32));
            }
        }
        // Arguments { pieces: (ptr, len) }
        if n < 10 {
            let q = rd(self, p)?;
            let l = rd(self, p + 8)?;
            if let Some(s) = text(self, q, l) {
                return Some(format!("\"{}\"", s));
            }
        }
        None
    }

    fn memcpy(&mut self, st: &mut State, dst: &Val, src: &Val, n: &Val) -> R<()> {
        let n = self.concretize(st, n, 64)? as u64;
        if n == 0 {
            return Ok(());
        }
        let d = self.caddr(st, dst)?;
        let s = self.caddr(st, src)?;
        let b = self.bytes_at(st, s, n)?;
        let o = self.obj_mut(st, d, n)?;
        let k = (d - o.base) as usize;
        o.bytes[k..k + n as usize].copy_from_slice(&b);
        Ok(())
    }
    fn builtin(&mut self, st: &mut State, name: &str, ret: &Ty, args: &[(Ty, Opnd)], a: &[Val]) -> R<Val> {
        if let Some(n) = name.strip_prefix("llvm.") {
            return self.intrinsic(st, n, ret, args, a);
        }
        if name.starts_with("sym_") {
            return self.api(st, name, a);
        }
        Ok(match name {
            "memcpy" | "memmove" => {
                self.memcpy(st, &a[0], &a[1], &a[2])?;
                a[0].clone()
            }
            "memset" => {
                self.memset(st, &a[0], &a[1], &a[2])?;
                a[0].clone()
            }
            "memcmp" | "bcmp" => {
                let n = self.concretize(st, &a[2], 64)? as u64;
                let p = self.caddr(st, &a[0])?;
                let q = self.caddr(st, &a[1])?;
                let x = self.bytes_at(st, p, n)?;
                let y = self.bytes_at(st, q, n)?;
                // result: sign of the first difference
                let mut r = self.cx.konst(32, 0);
                for i in (0..n as usize).rev() {
                    let u = self.byte_term(st, x[i]);
                    let v = self.byte_term(st, y[i]);
                    let e = self.cx.eq(u, v);
                    let uu = self.cx.zext(u, 32);
                    let vv = self.cx.zext(v, 32);
                    let df = self.cx.bin(Op::Sub, uu, vv);
                    r = self.cx.ite(e, r, df);
                }
                self.wrap(r)
            }
            "strlen" => {
                let p = self.caddr(st, &a[0])?;
                let mut i = 0u64;
                loop {
                    let b = self.bytes_at(st, p + i, 1)?[0];
                    let t = self.byte_term(st, b);
                    let z = self.cx.konst(8, 0);
                    let e = self.cx.eq(t, z);
                    // the alternative re-executes strlen with the decision recorded
                    if self.branch(st, e, |_, _| {})? {
                        break;
                    }
                    i += 1;
                }
                C(i as u128)
            }
            "__rust_alloc" | "__rust_alloc_zeroed" | "malloc" | "calloc" => {
                let n = self.concretize(st, &a[0], 64)? as u64;
                if n > 1 << 24 {
                    return fail("large allocation");
                }
                let al = if name.starts_with("__rust") { self.concretize(st, &a[1], 64)? as u64 } else { 16 };
                let z = if name == "__rust_alloc_zeroed" { Byte::C(0) } else { Byte::Un };
                C(self.new_obj(st, n, al, Kind::Heap, z) as u128)
            }
            "__rust_dealloc" | "free" => {
                let p = self.caddr(st, &a[0])?;
                match st.mem.get(&p) {
                    Some(o) if o.kind == Kind::Heap => {
                        st.mem.remove(&p);
                    }
                    _ => return Err(self.violation(st, "memory", "invalid deallocation".into())),
                }
                U
            }
            "__rust_realloc" => {
                let p = self.caddr(st, &a[0])?;
                let n = self.concretize(st, &a[3], 64)? as u64;
                let al = self.concretize(st, &a[2], 64)? as u64;
                let o = match st.mem.get(&p) {
                    Some(o) if o.kind == Kind::Heap => o.clone(),
                    _ => return Err(self.violation(st, "memory", "invalid reallocation".into())),
                };
                let q = self.new_obj(st, n, al, Kind::Heap, Byte::Un);
                let k = (o.bytes.len() as u64).min(n) as usize;
                Rc::make_mut(st.mem.get_mut(&q).unwrap()).bytes[..k].copy_from_slice(&o.bytes[..k]);
                st.mem.remove(&p);
                C(q as u128)
            }
            "tan" | "asin" | "acos" | "atan" | "cbrt" | "sinh" | "cosh" | "tanh" | "log1p" | "expm1" | "asinh" | "acosh" | "atanh" | "log2" | "exp2" | "sin" | "cos" | "exp" | "log" | "log10"
            | "tanf" | "asinf" | "acosf" | "atanf" | "cbrtf" => {
                let w = if name.ends_with('f') && *ret == Ty::F32 { 32 } else { 64 };
                let base = if w == 32 { &name[..name.len() - 1] } else { name };
                self.uf(st, &format!("{}{}", base, w), w, &a[0], None)?
            }
            "atan2" | "pow" | "fmod" | "hypot" => self.uf(st, &format!("{}64", name), 64, &a[0], Some(&a[1]))?,
            "atan2f" | "powf" | "fmodf" | "hypotf" => {
                let b = &name[..name.len() - 1];
                self.uf(st, &format!("{}32", b), 32, &a[0], Some(&a[1]))?
            }
            "getenv" => C(0),
            _ => return fail(format!("call of external function {}", name)),
        })
    }
    fn uf(&mut self, st: &mut State, name: &str, w: u32, x: &Val, y: Option<&Val>) -> R<Val> {
        let xt = self.term(st, x, w)?;
        let yt = match y {
            Some(v) => {
                let vw = match v {
                    T(t) => self.cx.w(*t),
                    _ => w,
                };
                self.term(st, v, vw)?
            }
            None => NONE,
        };
        let r = self.cx.uf(name, w, xt, yt);
        Ok(self.wrap(r))
    }
    fn memset(&mut self, st: &mut State, dst: &Val, v: &Val, n: &Val) -> R<()> {
        let n = self.concretize(st, n, 64)? as u64;
        if n == 0 {
            return Ok(());
        }
        let d = self.caddr(st, dst)?;
        let fill = match v {
            C(c) => Byte::C(*c as u8),
            U => Byte::Un,
            T(t) => {
                let t = if self.cx.w(*t) > 8 { self.cx.extract(*t, 0, 8) } else { *t };
                Byte::P(t, 0)
            }
            A(_) => return fail("memset value"),
        };
        let o = self.obj_mut(st, d, n)?;
        let k = (d - o.base) as usize;
        for b in &mut o.bytes[k..k + n as usize] {
            *b = fill;
        }
        Ok(())
    }
    fn intrinsic(&mut self, st: &mut State, n: &str, ret: &Ty, args: &[(Ty, Opnd)], a: &[Val]) -> R<Val> {
        let base = n.split('.').next().unwrap();
        match base {
            "lifetime" | "experimental" | "dbg" | "donothing" | "prefetch" | "sideeffect" | "invariant" => return Ok(U),
            "assume" => return Ok(U),
            "expect" => return Ok(a[0].clone()),
            "memcpy" | "memmove" => {
                self.memcpy(st, &a[0], &a[1], &a[2])?;
                return Ok(U);
            }
            "memset" => {
                self.memset(st, &a[0], &a[1], &a[2])?;
                return Ok(U);
            }
            "trap" => return Err(self.violation(st, "panic", "abort".into())),
            "is" => return Ok(C(0)), // is.constant
            "threadlocal" => return Ok(a[0].clone()),
            "ptrmask" => {
                let w = 64;
                let x = self.term(st, &a[0], w)?;
                let y = self.term(st, &a[1], w)?;
                let r = self.cx.bin(Op::And, x, y);
                return Ok(self.wrap(r));
            }
            "load" => {
                // load.relative
                let p = self.caddr(st, &a[0])?;
                let o = self.concretize(st, &a[1], 64)? as u64;
                let v = self.load_at(st, p.wrapping_add(o), &Ty::Int(32))?;
                let v = self.concretize(st, &v, 32)?;
                return Ok(C(p.wrapping_add(sx(v, 32) as u64) as u128));
            }
            "vector" => {
                // vector.reduce.<op>
                let op = n.split('.').nth(2).unwrap_or("");
                let ty = args[0].0.clone();
                let et = ty.field(0).1;
                let xs = elems(&a[0], ty.count());
                let w = et.bits();
                let mut acc = self.term(st, &xs[0], w)?;
                for x in &xs[1..] {
                    let x = self.term(st, x, w)?;
                    let o = match op {
                        "add" => Op::Add,
                        "or" => Op::Or,
                        "and" => Op::And,
                        "xor" => Op::Xor,
                        "mul" => Op::Mul,
                        "umax" | "umin" | "smax" | "smin" => {
                            let c = match op {
                                "umax" => self.cx.ult(acc, x),
                                "umin" => self.cx.ult(x, acc),
                                "smax" => self.cx.slt(acc, x),
                                _ => self.cx.slt(x, acc),
                            };
                            acc = self.cx.ite(c, x, acc);
                            continue;
                        }
                        _ => return fail(format!("intrinsic {}", n)),
                    };
                    acc = self.cx.bin(o, acc, x);
                }
                return Ok(self.wrap(acc));
            }
            _ => {}
        }
        if let Ty::Vec(..) = ret {
            let cnt = ret.count();
            let et = ret.field(0).1;
            let ee: Vec<(Ty, Opnd)> = args
                .iter()
                .map(|(t, o)| (if let Ty::Vec(_, e) = t { (**e).clone() } else { t.clone() }, o.clone()))
                .collect();
            let mut out = vec![];
            for i in 0..cnt {
                let av: Vec<Val> =
                    args.iter().zip(a.iter()).map(|((t, _), v)| if let Ty::Vec(k, _) = t { elems(v, *k as usize)[i].clone() } else { v.clone() }).collect();
                out.push(self.intrinsic(st, n, &et, &ee, &av)?);
            }
            return Ok(A(Rc::new(out)));
        }
        let w = match ret {
            Ty::Struct(f, _) => f[0].bits(),
            t => t.bits(),
        };
        let aw = args.first().map(|x| x.0.bits()).unwrap_or(w);
        let x = if !a.is_empty() { self.term(st, &a[0], aw)? } else { NONE };
        let y = if a.len() > 1 && args[1].0.is_scalar() { self.term(st, &a[1], args[1].0.bits())? } else { NONE };
        let full = n;
        let second = full.split('.').nth(1).unwrap_or("");
        let c = &mut self.cx;
        let r = match base {
            "sadd" | "uadd" | "ssub" | "usub" | "smul" | "umul" => {
                if second == "sat" {
                    let (op, ov) = match base {
                        "sadd" => (Op::Add, Op::SAddO),
                        "uadd" => (Op::Add, Op::UAddO),
                        "ssub" => (Op::Sub, Op::SSubO),
                        _ => (Op::Sub, Op::Ult),
                    };
                    let v = c.bin(op, x, y);
                    let o = c.bin(ov, x, y);
                    let lim = match base {
                        "uadd" => c.konst(w, mask(w)),
                        "usub" => c.konst(w, 0),
                        _ => {
                            let z = c.konst(w, 0);
                            let neg = c.slt(x, z);
                            let mn = c.konst(w, term::smin(w) as u128);
                            let mx = c.konst(w, term::smax(w) as u128);
                            c.ite(neg, mn, mx)
                        }
                    };
                    c.ite(o, lim, v)
                } else {
                    let (op, ov) = match base {
                        "sadd" => (Op::Add, Op::SAddO),
                        "uadd" => (Op::Add, Op::UAddO),
                        "ssub" => (Op::Sub, Op::SSubO),
                        "usub" => (Op::Sub, Op::Ult),
                        "smul" => (Op::Mul, Op::SMulO),
                        _ => (Op::Mul, Op::UMulO),
                    };
                    let v = c.bin(op, x, y);
                    let o = c.bin(ov, x, y);
                    let (v, o) = (self.wrap(v), self.wrap(o));
                    return Ok(A(Rc::new(vec![v, o])));
                }
            }
            "umax" | "umin" | "smax" | "smin" => {
                let l = if base.starts_with('u') { c.ult(x, y) } else { c.slt(x, y) };
                if base.ends_with("max") {
                    c.ite(l, y, x)
                } else {
                    c.ite(l, x, y)
                }
            }
            "abs" => {
                let z = c.konst(w, 0);
                let l = c.slt(x, z);
                let m = c.bin(Op::Sub, z, x);
                c.ite(l, m, x)
            }
            "bswap" => {
                let mut acc: Option<T> = None;
                for i in 0..w / 8 {
                    // byte i of x becomes byte (n-1-i): build from the low end of the result
                    let b = c.extract(x, w - 8 - i * 8, 8);
                    acc = Some(match acc {
                        None => b,
                        Some(p) => c.concat(b, p),
                    });
                }
                acc.unwrap()
            }
            "bitreverse" => {
                let mut acc: Option<T> = None;
                for i in 0..w {
                    let b = c.extract(x, w - 1 - i, 1);
                    acc = Some(match acc {
                        None => b,
                        Some(p) => c.concat(b, p),
                    });
                }
                acc.unwrap()
            }
            "ctpop" => {
                let mut acc = c.konst(w, 0);
                for i in 0..w {
                    let b = c.extract(x, i, 1);
                    let z = if w > 1 { c.zext(b, w) } else { b };
                    acc = c.bin(Op::Add, acc, z);
                }
                acc
            }
            "ctlz" | "cttz" => {
                let mut acc = c.konst(w, w as u128);
                for i in 0..w {
                    let i = if base == "ctlz" { i } else { w - 1 - i };
                    let b = c.extract(x, i, 1);
                    let k = c.konst(w, if base == "ctlz" { (w - 1 - i) as u128 } else { i as u128 });
                    acc = c.ite(b, k, acc);
                }
                acc
            }
            "fshl" | "fshr" => {
                let z = self.term(st, &a[2], w)?;
                let c = &mut self.cx;
                let k = c.konst(w, w as u128);
                let s = c.bin(Op::URem, z, k);
                let zero = c.konst(w, 0);
                let is0 = c.eq(s, zero);
                let inv = c.bin(Op::Sub, k, s);
                if base == "fshl" {
                    let h = c.bin(Op::Shl, x, s);
                    let l = c.bin(Op::LShr, y, inv);
                    let o = c.bin(Op::Or, h, l);
                    c.ite(is0, x, o)
                } else {
                    let l = c.bin(Op::LShr, y, s);
                    let h = c.bin(Op::Shl, x, inv);
                    let o = c.bin(Op::Or, h, l);
                    c.ite(is0, y, o)
                }
            }
            "fabs" => {
                let k = c.konst(w, mask(w) >> 1);
                c.bin(Op::And, x, k)
            }
            "copysign" => {
                let k = c.konst(w, mask(w) >> 1);
                let m = c.bin(Op::And, x, k);
                let s = c.konst(w, 1u128 << (w - 1));
                let sg = c.bin(Op::And, y, s);
                c.bin(Op::Or, m, sg)
            }
            "round" => c.fop(Op::FRound, w, 1, x, NONE),
            "roundeven" | "rint" | "nearbyint" => c.fop(Op::FRound, w, 0, x, NONE),
            "ceil" => c.fop(Op::FRound, w, 2, x, NONE),
            "floor" => c.fop(Op::FRound, w, 3, x, NONE),
            "trunc" => c.fop(Op::FRound, w, 4, x, NONE),
            "sqrt" => c.fop(Op::FSqrt, w, 0, x, NONE),
            "fptosi" => c.fop(Op::FToSI, w, 0, x, NONE),
            "fptoui" => c.fop(Op::FToUI, w, 0, x, NONE),
            "maxnum" | "minnum" => {
                let nx = c.f_is_nan(x);
                let ny = c.f_is_nan(y);
                let l = if base == "maxnum" { c.f_cmp(Op::Ult, x, y) } else { c.f_cmp(Op::Ult, y, x) };
                // x, unless y wins or x is NaN
                let t = c.ite(l, y, x);
                let t2 = c.ite(nx, y, t);
                let t3 = c.and(ny, nx);
                let _ = t3;
                let nnx = c.not(nx);
                let keepx = c.and(ny, nnx);
                c.ite(keepx, x, t2)
            }
            "sin" | "cos" | "exp" | "exp2" | "log" | "log2" | "log10" | "tan" => return self.uf(st, &format!("{}{}", base, w), w, &a[0], None),
            "pow" => return self.uf(st, &format!("pow{}", w), w, &a[0], Some(&a[1])),
            "powi" => {
                let xt = x;
                let yt = y;
                let r = self.cx.uf(&format!("powi{}", w), w, xt, yt);
                return Ok(self.wrap(r));
            }
            "fma" | "fmuladd" => return fail("fma"),
            _ => return fail(format!("intrinsic llvm.{}", n)),
        };
        Ok(self.wrap(r))
    }

    // ------------------------------------------------------------------ harness API
    fn api(&mut self, st: &mut State, name: &str, a: &[Val]) -> R<Val> {
        let konst = |v: &Val| -> R<u128> {
            match v {
                C(c) => Ok(*c),
                _ => fail("harness API argument must be constant"),
            }
        };
        Ok(match name {
            "sym_u" | "sym_s" => {
                let w = konst(&a[0])? as u32;
                let (lo, hi) = (konst(&a[1])?, konst(&a[2])?);
                let signed = name == "sym_s";
                if if signed { sx(lo, 64) > sx(hi, 64) } else { lo > hi } {
                    return Err(Stop::Cut);
                }
                let k = st.inputs.len();
                if let Some(fx) = &self.fixed {
                    let v = fx.get(k).copied().unwrap_or(lo & mask(w)) & mask(w);
                    let t = self.cx.konst(w, v);
                    Rc::make_mut(&mut st.inputs).push(t);
                    return Ok(C(if signed { sx(v, w) as u128 & mask(64) } else { v }));
                }
                let t = self.cx.var(&format!("in{}", k), w, signed, lo & mask(w), hi & mask(w));
                Rc::make_mut(&mut st.inputs).push(t);
                let r = if w == 64 {
                    t
                } else if signed {
                    self.cx.sext(t, 64)
                } else {
                    self.cx.zext(t, 64)
                };
                self.wrap(r)
            }
            "sym_assume" => {
                match &a[0] {
                    C(1) => {}
                    C(_) => return Err(Stop::Cut),
                    v => {
                        let t = self.term(st, v, 1)?;
                        if self.model_says(st, t) == Some(true) {
                            st.pc.push(t);
                        } else {
                            match self.s.check(&self.cx, &st.pc, &[t]) {
                                Ans::Sat(m) => self.assume_with(st, t, m),
                                Ans::Unsat => return Err(Stop::Cut),
                                Ans::Unknown => return fail("solver gave no answer (assumption)"),
                            }
                        }
                    }
                }
                U
            }
            "sym_check" => {
                let id = konst(&a[1])? as u32;
                let e = self.rep.checks.entry(id).or_insert((0, 0));
                e.0 += 1;
                match &a[0] {
                    C(1) => {}
                    C(_) => return Err(self.violation(st, "check", format!("line {}", id))),
                    v => {
                        let t = self.term(st, v, 1)?;
                        let mut nt = self.cx.not(t);
                        let parts = self.cx.conjuncts(t);
                        let mut ans = Ans::Unknown;
                        if parts.len() <= 6 {
                            self.s.brief = parts.len() > 1;
                            ans = self.s.check(&self.cx, &st.pc, &[nt]);
                            self.s.brief = false;
                        }
                        if let (Ans::Unknown, true) = (&ans, parts.len() > 1) {
                            // one part after the other
                            ans = Ans::Unsat;
                            for p in parts {
                                let np = self.cx.not(p);
                                match self.s.check(&self.cx, &st.pc, &[np]) {
                                    Ans::Unsat => {}
                                    x => {
                                        nt = np;
                                        ans = x;
                                        break;
                                    }
                                }
                            }
                        }
                        match ans {
                            Ans::Unsat => {
                                self.rep.checks.get_mut(&id).unwrap().1 += 1;
                                if self.s.xcheck {
                                    if let Some(false) = self.s.confirm_unsat(&self.cx, &st.pc, &[nt], 20000) {
                                        self.xfail += 1;
                                        return fail("a second solver disagrees with an unsat verdict");
                                    }
                                }
                            }
                            Ans::Sat(m) => {
                                self.assume_with(st, nt, m);
                                return Err(self.violation(st, "check", format!("line {}", id)));
                            }
                            Ans::Unknown => {
                                let stack = self.stack_names(st).join(" < ");
                                self.give_up(format!("solver gave no answer (check at line {}) [at {}]", id, stack));
                            }
                        }
                    }
                }
                U
            }
            "sym_never" => {
                let id = konst(&a[0])? as u32;
                return Err(self.violation(st, "check", format!("line {}: a value the function must reject was accepted", id)));
            }
            "sym_cover" => {
                self.rep.covers.insert(konst(&a[0])? as u32);
                U
            }
            "sym_must_panic" => {
                st.expect = Some(konst(&a[0])? as u32);
                U
            }
            "sym_watch" => {
                let p = self.caddr(st, &a[0])?;
                let n = self.concretize(st, &a[1], 64)? as u64;
                let b = self.bytes_at(st, p, n)?;
                Rc::make_mut(&mut st.watch).push((p, b));
                U
            }
            "sym_concretize" => C(self.concretize(st, &a[0], 64)?),
            "sym_buf" => {
                let n = self.concretize(st, &a[0], 64)? as u64;
                C(self.new_obj(st, n, 1, Kind::Buf, Byte::C(0)) as u128)
            }
            "sym_stubs" => {
                if !self.stubs {
                    self.stubs = true;
                    self.callees.clear();
                }
                U
            }
            "sym_is_symbolic" => C(1),
            "sym_stop" => return Err(Stop::End),
            _ => return fail(format!("unknown harness call {}", name)),
        })
    }
}

pub fn is_panic(n: &str) -> bool {
    n.contains("4core9panicking")
        || n.contains("6option13unwrap_failed")
        || n.contains("6option13expect_failed")
        || n.contains("6result13unwrap_failed")
        || n.contains("slice_error_fail")
        || n.contains("slice_index_order_fail")
        || n.contains("slice_start_index_len_fail")
        || n.contains("slice_end_index_len_fail")
        || n.contains("slice_end_index_overflow_fail")
        || n.contains("slice_start_index_overflow_fail")
        || n.contains("3std9panicking")
        || n.contains("handle_alloc_error")
        || n.contains("capacity_overflow")
        || n.contains("copy_from_slice17len_mismatch_fail")
        || n.contains("4cell22panic_already")
        || n == "rust_begin_unwind"
        || n == "abort"
}

/// only letters, digits and colons are significant
fn plain(n: &str) -> String {
    n.chars().map(|c| if c.is_ascii_alphanumeric() || c == ':' { c } else { '_' }).collect()
}
pub fn demangle(n: &str) -> String {
    if !n.starts_with("_ZN") {
        return n.to_string();
    }
    let b = n.as_bytes();
    let mut i = 3;
    let mut out: Vec<String> = vec![];
    while i < b.len() && b[i].is_ascii_digit() {
        let mut k = 0usize;
        while i < b.len() && b[i].is_ascii_digit() {
            k = k * 10 + (b[i] - b'0') as usize;
            i += 1;
        }
        if i + k > b.len() {
            break;
        }
        let s = &n[i..i + k];
        i += k;
        if s.len() == 17 && s.starts_with('h') {
            break;
        }
        out.push(
            s.replace("$LT$", "<").replace("$GT$", ">").replace("$u20$", " ").replace("$u7b$", "{").replace("$u7d$", "}").replace("$RF$", "&").replace("$C$", ",").replace("$u5b$", "[").replace("$u5d$", "]").replace("$u3b$", ";").replace("$BP$", "*").replace("..", "::"),
        );
    }
    out.join("::")
}

fn same(a: &Val, b: &Val) -> bool {
    match (a, b) {
        (C(x), C(y)) => x == y,
        (T(x), T(y)) => x == y,
        _ => false,
    }
}
fn elems(v: &Val, n: usize) -> Vec<Val> {
    match v {
        A(x) => (**x).clone(),
        _ => vec![U; n],
    }
}
fn insert(ty: &Ty, a: Val, v: Val, path: &[u32]) -> Val {
    if path.is_empty() {
        return v;
    }
    let mut e = elems(&a, ty.count());
    let i = path[0] as usize;
    let sub = ty.field(i).1;
    let old = e[i].clone();
    e[i] = insert(&sub, old, v, &path[1..]);
    A(Rc::new(e))
}
fn bop(o: BinOp) -> Op {
    match o {
        BinOp::Add => Op::Add,
        BinOp::Sub => Op::Sub,
        BinOp::Mul => Op::Mul,
        BinOp::UDiv => Op::UDiv,
        BinOp::SDiv => Op::SDiv,
        BinOp::URem => Op::URem,
        BinOp::SRem => Op::SRem,
        BinOp::Shl => Op::Shl,
        BinOp::LShr => Op::LShr,
        BinOp::AShr => Op::AShr,
        BinOp::And => Op::And,
        BinOp::Or => Op::Or,
        BinOp::Xor => Op::Xor,
        BinOp::FAdd => Op::FAdd,
        BinOp::FSub => Op::FSub,
        BinOp::FMul => Op::FMul,
        BinOp::FDiv => Op::FDiv,
        BinOp::FRem => Op::FRem,
    }
}
fn icmp_c(p: Pred, w: u32, x: u128, y: u128) -> bool {
    match p {
        Pred::Eq => x == y,
        Pred::Ne => x != y,
        Pred::Ult => x < y,
        Pred::Ule => x <= y,
        Pred::Ugt => x > y,
        Pred::Uge => x >= y,
        Pred::Slt => sx(x, w) < sx(y, w),
        Pred::Sle => sx(x, w) <= sx(y, w),
        Pred::Sgt => sx(x, w) > sx(y, w),
        Pred::Sge => sx(x, w) >= sx(y, w),
    }
}
fn write_val(cx: &mut Cx, bytes: &mut [Byte], k: usize, ty: &Ty, v: &Val) -> R<()> {
    match v {
        C(c) => {
            let n = ty.store() as usize;
            if !ty.is_scalar() {
                return fail("scalar stored as aggregate");
            }
            for i in 0..n {
                bytes[k + i] = Byte::C((*c >> (8 * i)) as u8);
            }
        }
        T(t) => {
            let n = ty.store() as usize;
            // look through extensions so that narrow values stay narrow in memory
            let nd = cx.n(*t);
            if nd.op == Op::ZExt && cx.w(nd.a) % 8 == 0 {
                let m = (cx.w(nd.a) / 8) as usize;
                for i in 0..n {
                    bytes[k + i] = if i < m { Byte::P(nd.a, i as u8) } else { Byte::C(0) };
                }
                return Ok(());
            }
            if nd.op == Op::Concat && n > 1 && cx.w(nd.b) % 8 == 0 {
                let m = (cx.w(nd.b) / 8) as usize;
                let lo = Ty::Int(cx.w(nd.b));
                let hi = Ty::Int(cx.w(nd.a));
                let lv = match cx.cval(nd.b) {
                    Some(c) => C(c),
                    None => T(nd.b),
                };
                let hv = match cx.cval(nd.a) {
                    Some(c) => C(c),
                    None => T(nd.a),
                };
                write_val(cx, bytes, k, &lo, &lv)?;
                write_val(cx, bytes, k + m, &hi, &hv)?;
                return Ok(());
            }
            for i in 0..n {
                bytes[k + i] = Byte::P(*t, i as u8);
            }
        }
        U => {
            for b in &mut bytes[k..k + ty.store() as usize] {
                *b = Byte::Un;
            }
        }
        A(x) => {
            for (i, e) in x.iter().enumerate() {
                let (o, t) = ty.field(i);
                write_val(cx, bytes, k + o as usize, &t, e)?;
            }
        }
    }
    Ok(())
}
