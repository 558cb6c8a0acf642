//! Reader for the textual LLVM IR that rustc emits. Function bodies are parsed on first use.
use std::collections::HashMap;
use std::rc::Rc;

#[derive(Clone, Debug, PartialEq)]
pub enum Ty {
    Void,
    Int(u32),
    Ptr,
    F32,
    F64,
    Arr(u64, Rc<Ty>),
    Vec(u64, Rc<Ty>),
    Struct(Rc<Vec<Ty>>, bool),
    Other,
}
impl Ty {
    pub fn bits(&self) -> u32 {
        match self {
            Ty::Int(w) => *w,
            Ty::Ptr | Ty::F64 => 64,
            Ty::F32 => 32,
            _ => (self.size() * 8) as u32,
        }
    }
    pub fn is_scalar(&self) -> bool {
        matches!(self, Ty::Int(_) | Ty::Ptr | Ty::F32 | Ty::F64)
    }
    pub fn align(&self) -> u64 {
        match self {
            Ty::Int(w) => ((*w as u64 + 7) / 8).next_power_of_two().min(16),
            Ty::Ptr | Ty::F64 => 8,
            Ty::F32 => 4,
            Ty::Arr(_, t) => t.align(),
            Ty::Vec(n, t) => (n * t.bits() as u64 / 8).next_power_of_two().max(1),
            Ty::Struct(f, packed) => {
                if *packed {
                    1
                } else {
                    f.iter().map(|t| t.align()).max().unwrap_or(1)
                }
            }
            _ => 1,
        }
    }
    pub fn store(&self) -> u64 {
        match self {
            Ty::Int(w) => (*w as u64 + 7) / 8,
            Ty::Vec(n, t) => (n * t.bits() as u64 + 7) / 8,
            _ => self.size(),
        }
    }
    pub fn size(&self) -> u64 {
        match self {
            Ty::Void | Ty::Other => 0,
            Ty::Int(w) => {
                let s = (*w as u64 + 7) / 8;
                let a = self.align();
                (s + a - 1) / a * a
            }
            Ty::Ptr | Ty::F64 => 8,
            Ty::F32 => 4,
            Ty::Arr(n, t) => n * t.size(),
            Ty::Vec(n, t) => (n * t.bits() as u64 + 7) / 8,
            Ty::Struct(f, packed) => {
                let mut o = 0;
                for t in f.iter() {
                    if !packed {
                        let a = t.align();
                        o = (o + a - 1) / a * a;
                    }
                    o += t.size();
                }
                let a = self.align();
                (o + a - 1) / a * a
            }
        }
    }
    pub fn field(&self, i: usize) -> (u64, Ty) {
        match self {
            Ty::Struct(f, packed) => {
                let mut o = 0;
                for (k, t) in f.iter().enumerate() {
                    if !packed {
                        let a = t.align();
                        o = (o + a - 1) / a * a;
                    }
                    if k == i {
                        return (o, t.clone());
                    }
                    o += t.size();
                }
                (o, Ty::Other)
            }
            Ty::Arr(_, t) => (i as u64 * t.size(), (**t).clone()),
            Ty::Vec(_, t) => (i as u64 * t.size(), (**t).clone()),
            _ => (0, Ty::Other),
        }
    }
    pub fn count(&self) -> usize {
        match self {
            Ty::Struct(f, _) => f.len(),
            Ty::Arr(n, _) | Ty::Vec(n, _) => *n as usize,
            _ => 0,
        }
    }
}

#[derive(Clone, Debug)]
pub enum Opnd {
    R(u32),
    C(u128),
    Undef,
    Zero(Ty),
    Agg(Rc<Vec<(Ty, Opnd)>>),
    G(u32),
    Str(Rc<Vec<u8>>),
    Gep(Box<Opnd>, i64),
    Cast(CastOp, u32, u32, Box<Opnd>),
    Bin(BinOp, u32, Box<Opnd>, Box<Opnd>),
    Icmp(Pred, u32, Box<Opnd>, Box<Opnd>),
    Asm,
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum BinOp {
    Add,
    Sub,
    Mul,
    UDiv,
    SDiv,
    URem,
    SRem,
    Shl,
    LShr,
    AShr,
    And,
    Or,
    Xor,
    FAdd,
    FSub,
    FMul,
    FDiv,
    FRem,
}
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Pred {
    Eq,
    Ne,
    Ugt,
    Uge,
    Ult,
    Ule,
    Sgt,
    Sge,
    Slt,
    Sle,
}
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum CastOp {
    ZExt,
    SExt,
    Trunc,
    Bit, // bitcast, ptrtoint, inttoptr (width change handled by from/to)
    FpToSi,
    FpToUi,
    SiToFp,
    UiToFp,
    FpExt,
    FpTrunc,
}

#[derive(Clone, Debug)]
pub enum I {
    Alloca { d: u32, size: u64, align: u64, n: Opnd },
    Load { d: u32, ty: Ty, p: Opnd },
    Store { ty: Ty, v: Opnd, p: Opnd },
    Gep { d: u32, base: Opnd, off: i64, idx: Vec<(Opnd, u32, i64)> },
    Bin { d: u32, op: BinOp, ty: Ty, a: Opnd, b: Opnd },
    FNeg { d: u32, ty: Ty, a: Opnd },
    Icmp { d: u32, p: Pred, ty: Ty, a: Opnd, b: Opnd },
    Fcmp { d: u32, p: String, ty: Ty, a: Opnd, b: Opnd },
    Cast { d: u32, op: CastOp, from: Ty, to: Ty, a: Opnd },
    Call { d: Option<u32>, ret: Ty, f: Opnd, args: Rc<Vec<(Ty, Opnd)>>, normal: Option<u32> },
    Phi { d: u32, ins: Rc<Vec<(u32, Opnd)>>, ty: Ty },
    Select { d: u32, c: Opnd, cty: Ty, ty: Ty, a: Opnd, b: Opnd },
    Extract { d: u32, a: Opnd, path: Vec<u32> },
    Insert { d: u32, ty: Ty, a: Opnd, v: Opnd, path: Vec<u32> },
    ExtractEl { d: u32, ty: Ty, a: Opnd, i: Opnd },
    InsertEl { d: u32, ty: Ty, a: Opnd, v: Opnd, i: Opnd },
    Shuffle { d: u32, ty: Ty, a: Opnd, b: Opnd, mask: Vec<i64> },
    Freeze { d: u32, a: Opnd },
    Br(u32),
    CBr(Opnd, u32, u32),
    Switch { w: u32, v: Opnd, def: u32, cases: Rc<Vec<(u128, u32)>> },
    Ret(Ty, Opnd),
    Unreachable,
    Rmw { d: u32, op: String, w: u32, p: Opnd, v: Opnd },
    CmpXchg { d: u32, w: u32, p: Opnd, c: Opnd, n: Opnd },
    Nop,
    Unsupported(String),
}

pub struct Func {
    pub name: String,
    pub params: Vec<u32>,
    pub nregs: u32,
    pub blocks: Vec<Vec<I>>,
}

#[derive(Clone, Debug)]
pub struct Global {
    pub name: String,
    /// text of the definition after '=' (variables / aliases), or None for functions
    pub span: (usize, usize),
    pub kind: GKind,
}
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum GKind {
    Var,
    Alias,
    Define,
    Declare,
    Unknown,
}

pub struct Module {
    pub text: Rc<Vec<u8>>,
    pub ids: HashMap<String, u32>,
    pub globals: Vec<Global>,
    pub types: HashMap<String, (usize, usize)>,
    pub funcs: HashMap<u32, Rc<Func>>,
}

pub type Res<X> = Result<X, String>;

struct Cur<'a> {
    s: &'a [u8],
    p: usize,
    end: usize,
}

impl<'a> Cur<'a> {
    fn ws(&mut self) {
        loop {
            while self.p < self.end && (self.s[self.p] as char).is_whitespace() {
                self.p += 1;
            }
            if self.p < self.end && self.s[self.p] == b';' {
                self.eol();
            } else {
                return;
            }
        }
    }
    fn eol(&mut self) {
        while self.p < self.end && self.s[self.p] != b'\n' {
            self.p += 1;
        }
    }
    fn pk(&mut self) -> u8 {
        self.ws();
        if self.p < self.end {
            self.s[self.p]
        } else {
            0
        }
    }
    fn eat(&mut self, c: u8) -> bool {
        if self.pk() == c {
            self.p += 1;
            true
        } else {
            false
        }
    }
    fn need(&mut self, c: u8) -> Res<()> {
        if self.eat(c) {
            Ok(())
        } else {
            Err(format!("expected '{}' near: {}", c as char, self.near()))
        }
    }
    fn near(&self) -> String {
        String::from_utf8_lossy(&self.s[self.p.saturating_sub(60)..(self.p + 80).min(self.s.len())]).to_string()
    }
    fn word(&mut self) -> String {
        self.ws();
        let st = self.p;
        while self.p < self.end {
            let c = self.s[self.p];
            if c.is_ascii_alphanumeric() || c == b'_' || c == b'.' || c == b'-' || c == b'+' || c == b'$' {
                self.p += 1;
            } else {
                break;
            }
        }
        String::from_utf8_lossy(&self.s[st..self.p]).to_string()
    }
    fn peek_word(&mut self) -> String {
        let save = self.p;
        let w = self.word();
        self.p = save;
        w
    }
    fn eat_word(&mut self, w: &str) -> bool {
        let save = self.p;
        if self.word() == w {
            true
        } else {
            self.p = save;
            false
        }
    }
    /// name after % or @ (sigil already consumed)
    fn name(&mut self) -> String {
        if self.p < self.end && self.s[self.p] == b'"' {
            self.p += 1;
            let st = self.p;
            while self.p < self.end && self.s[self.p] != b'"' {
                self.p += 1;
            }
            let r = String::from_utf8_lossy(&self.s[st..self.p]).to_string();
            self.p += 1;
            r
        } else {
            self.word()
        }
    }
    fn balanced(&mut self) {
        // at '('
        let mut d = 0;
        while self.p < self.end {
            match self.s[self.p] {
                b'(' => d += 1,
                b')' => {
                    d -= 1;
                    if d == 0 {
                        self.p += 1;
                        return;
                    }
                }
                b'"' => {
                    self.p += 1;
                    while self.p < self.end && self.s[self.p] != b'"' {
                        self.p += 1;
                    }
                }
                _ => {}
            }
            self.p += 1;
        }
    }
    fn is_type_start(&mut self) -> bool {
        match self.pk() {
            b'{' | b'[' | b'<' | b'%' => true,
            _ => {
                let w = self.peek_word();
                matches!(w.as_str(), "void" | "ptr" | "float" | "double" | "half" | "fp128" | "x86_fp80" | "metadata" | "token" | "label")
                    || (w.len() > 1 && w.starts_with('i') && w[1..].chars().all(|c| c.is_ascii_digit()))
            }
        }
    }
    /// skip attribute words until a type starts
    fn to_type(&mut self) {
        while !self.is_type_start() {
            if self.pk() == b'#' {
                self.p += 1;
            }
            let st = self.p;
            let _ = self.word();
            if self.pk() == b'(' {
                self.balanced();
            }
            if self.p == st {
                if self.p >= self.end {
                    return;
                }
                self.p += 1;
            }
        }
    }
}

impl Module {
    pub fn load(path: &str) -> Res<Module> {
        let data = std::fs::read(path).map_err(|e| format!("{}: {}", path, e))?;
        let text = Rc::new(data);
        let mut m = Module { text: text.clone(), ids: HashMap::new(), globals: vec![], types: HashMap::new(), funcs: HashMap::new() };
        let s: &[u8] = &text;
        let mut p = 0;
        let n = s.len();
        while p < n {
            let e = memchr(s, b'\n', p);
            if s[p] == b'@' || s[p] == b'd' || s[p] == b'%' {
                let mut c = Cur { s, p, end: e };
                if s[p] == b'@' {
                    c.p += 1;
                    let nm = c.name();
                    c.need(b'=')?;
                    let rest = &s[c.p..(c.p + 200).min(e)];
                    let is_alias = find_word(rest, b"alias");
                    let id = m.id(&nm);
                    m.globals[id as usize].span = (c.p, e);
                    m.globals[id as usize].kind = if is_alias { GKind::Alias } else { GKind::Var };
                } else if s[p] == b'%' {
                    c.p += 1;
                    let nm = c.name();
                    if c.eat(b'=') && c.eat_word("type") {
                        m.types.insert(nm, (c.p, e));
                    }
                } else if s[p..e].starts_with(b"define ") {
                    let nm = header_name(s, p, e);
                    let mut q = e;
                    // body ends at a line that is exactly "}"
                    loop {
                        let e2 = memchr(s, b'\n', q + 1);
                        if s[q + 1] == b'}' && e2 == q + 2 {
                            q = e2;
                            break;
                        }
                        q = e2;
                        if q >= n {
                            break;
                        }
                    }
                    let id = m.id(&nm);
                    m.globals[id as usize].span = (p, q);
                    m.globals[id as usize].kind = GKind::Define;
                    p = q + 1;
                    continue;
                } else if s[p..e].starts_with(b"declare ") {
                    let nm = header_name(s, p, e);
                    let id = m.id(&nm);
                    m.globals[id as usize].span = (p, e);
                    m.globals[id as usize].kind = GKind::Declare;
                }
            }
            p = e + 1;
        }
        Ok(m)
    }
    pub fn id(&mut self, name: &str) -> u32 {
        if let Some(i) = self.ids.get(name) {
            return *i;
        }
        let i = self.globals.len() as u32;
        self.ids.insert(name.to_string(), i);
        self.globals.push(Global { name: name.to_string(), span: (0, 0), kind: GKind::Unknown });
        i
    }
    fn ty(&mut self, c: &mut Cur) -> Res<Ty> {
        let t = match c.pk() {
            b'{' => {
                c.p += 1;
                let f = self.tys(c, b'}')?;
                Ty::Struct(Rc::new(f), false)
            }
            b'[' => {
                c.p += 1;
                let n: u64 = c.word().parse().map_err(|_| "array len")?;
                if !c.eat_word("x") {
                    return Err("array x".into());
                }
                let t = self.ty(c)?;
                c.need(b']')?;
                Ty::Arr(n, Rc::new(t))
            }
            b'<' => {
                c.p += 1;
                if c.eat(b'{') {
                    let f = self.tys(c, b'}')?;
                    c.need(b'>')?;
                    Ty::Struct(Rc::new(f), true)
                } else {
                    let n: u64 = c.word().parse().map_err(|_| "vector len")?;
                    if !c.eat_word("x") {
                        return Err("vector x".into());
                    }
                    let t = self.ty(c)?;
                    c.need(b'>')?;
                    Ty::Vec(n, Rc::new(t))
                }
            }
            b'%' => {
                c.p += 1;
                let nm = c.name();
                let sp = self.types.get(&nm).copied();
                match sp {
                    Some((a, b)) => {
                        let text = self.text.clone();
                        let mut c2 = Cur { s: &text, p: a, end: b };
                        self.ty(&mut c2)?
                    }
                    None => Ty::Other,
                }
            }
            _ => {
                let w = c.word();
                match w.as_str() {
                    "void" => Ty::Void,
                    "ptr" => Ty::Ptr,
                    "float" => Ty::F32,
                    "double" => Ty::F64,
                    "metadata" | "token" | "label" | "half" | "fp128" | "x86_fp80" | "opaque" => Ty::Other,
                    _ => {
                        if w.starts_with('i') {
                            Ty::Int(w[1..].parse().map_err(|_| format!("type {} near {}", w, c.near()))?)
                        } else {
                            return Err(format!("type '{}' near {}", w, c.near()));
                        }
                    }
                }
            }
        };
        Ok(t)
    }
    fn tys(&mut self, c: &mut Cur, close: u8) -> Res<Vec<Ty>> {
        let mut v = vec![];
        if c.eat(close) {
            return Ok(v);
        }
        loop {
            v.push(self.ty(c)?);
            if c.eat(close) {
                return Ok(v);
            }
            c.need(b',')?;
        }
    }
    fn val(&mut self, c: &mut Cur, ty: &Ty, regs: &mut HashMap<String, u32>) -> Res<Opnd> {
        match c.pk() {
            b'%' => {
                c.p += 1;
                let n = c.name();
                let k = regs.len() as u32;
                Ok(Opnd::R(*regs.entry(n).or_insert(k)))
            }
            b'@' => {
                c.p += 1;
                let n = c.name();
                Ok(Opnd::G(self.id(&n)))
            }
            b'{' | b'[' | b'<' => {
                let mut close = match c.pk() {
                    b'{' => b'}',
                    b'[' => b']',
                    _ => b'>',
                };
                c.p += 1;
                let mut packed = false;
                if close == b'>' && c.eat(b'{') {
                    close = b'}';
                    packed = true;
                }
                let mut v = vec![];
                if !c.eat(close) {
                    loop {
                        let t = self.ty(c)?;
                        let x = self.val(c, &t, regs)?;
                        v.push((t, x));
                        if c.eat(close) {
                            break;
                        }
                        c.need(b',')?;
                    }
                }
                if packed {
                    c.need(b'>')?;
                }
                Ok(Opnd::Agg(Rc::new(v)))
            }
            b'c' if c.s[c.p + 1] == b'"' => {
                c.p += 2;
                let mut v = vec![];
                while c.s[c.p] != b'"' {
                    if c.s[c.p] == b'\\' {
                        let h = std::str::from_utf8(&c.s[c.p + 1..c.p + 3]).unwrap();
                        if c.s[c.p + 1] == b'\\' {
                            v.push(b'\\');
                            c.p += 2;
                            continue;
                        }
                        v.push(u8::from_str_radix(h, 16).map_err(|_| "string escape")?);
                        c.p += 3;
                    } else {
                        v.push(c.s[c.p]);
                        c.p += 1;
                    }
                }
                c.p += 1;
                Ok(Opnd::Str(Rc::new(v)))
            }
            _ => {
                let w = c.word();
                match w.as_str() {
                    "true" => return Ok(Opnd::C(1)),
                    "false" | "null" | "none" => return Ok(Opnd::C(0)),
                    "undef" | "poison" => return Ok(Opnd::Undef),
                    "zeroinitializer" => return Ok(Opnd::Zero(ty.clone())),
                    "getelementptr" => {
                        while !c.eat(b'(') {
                            if c.word().is_empty() {
                                return Err(format!("gep ce near {}", c.near()));
                            }
                        }
                        c.to_type();
                        let t = self.ty(c)?;
                        c.need(b',')?;
                        let bt = self.ty(c)?;
                        let base = self.val(c, &bt, regs)?;
                        let mut off = 0i64;
                        let mut cur = t.clone();
                        let mut first = true;
                        while c.eat(b',') {
                            c.to_type();
                            let it = self.ty(c)?;
                            let i = match self.val(c, &it, regs)? {
                                Opnd::C(v) => crate::term::sx(v, it.bits()) as i64,
                                _ => return Err("gep ce index".into()),
                            };
                            if first {
                                off += i * t.size() as i64;
                                first = false;
                            } else {
                                let (o, f) = cur.field(i as usize);
                                off += match cur {
                                    Ty::Struct(..) => o as i64,
                                    _ => i * f.size() as i64,
                                };
                                cur = f;
                            }
                        }
                        c.need(b')')?;
                        return Ok(Opnd::Gep(Box::new(base), off));
                    }
                    "ptrtoint" | "inttoptr" | "bitcast" | "trunc" | "zext" | "sext" | "addrspacecast" => {
                        c.need(b'(')?;
                        let ft = self.ty(c)?;
                        let v = self.val(c, &ft, regs)?;
                        if !c.eat_word("to") {
                            return Err("cast ce".into());
                        }
                        let tt = self.ty(c)?;
                        c.need(b')')?;
                        let op = match w.as_str() {
                            "trunc" => CastOp::Trunc,
                            "zext" => CastOp::ZExt,
                            "sext" => CastOp::SExt,
                            _ => CastOp::Bit,
                        };
                        return Ok(Opnd::Cast(op, ft.bits(), tt.bits(), Box::new(v)));
                    }
                    "add" | "sub" | "mul" | "xor" | "and" | "or" | "shl" | "lshr" => {
                        while !c.eat(b'(') {
                            c.word();
                        }
                        let t = self.ty(c)?;
                        let a = self.val(c, &t, regs)?;
                        c.need(b',')?;
                        let t2 = self.ty(c)?;
                        let b = self.val(c, &t2, regs)?;
                        c.need(b')')?;
                        let op = binop(&w).unwrap();
                        return Ok(Opnd::Bin(op, t.bits(), Box::new(a), Box::new(b)));
                    }
                    "icmp" => {
                        let p = pred(&c.word())?;
                        c.need(b'(')?;
                        let t = self.ty(c)?;
                        let a = self.val(c, &t, regs)?;
                        c.need(b',')?;
                        let t2 = self.ty(c)?;
                        let b = self.val(c, &t2, regs)?;
                        c.need(b')')?;
                        return Ok(Opnd::Icmp(p, t.bits(), Box::new(a), Box::new(b)));
                    }
                    "asm" => {
                        c.eol();
                        return Ok(Opnd::Asm);
                    }
                    _ => {}
                }
                match ty {
                    Ty::F32 | Ty::F64 => {
                        let d = if let Some(h) = w.strip_prefix("0x") {
                            f64::from_bits(u64::from_str_radix(h, 16).map_err(|_| format!("float {}", w))?)
                        } else {
                            w.parse::<f64>().map_err(|_| format!("float {}", w))?
                        };
                        Ok(Opnd::C(if *ty == Ty::F32 { (d as f32).to_bits() as u128 } else { d.to_bits() as u128 }))
                    }
                    _ => {
                        let bits = ty.bits();
                        let v: u128 = if let Some(n) = w.strip_prefix('-') {
                            (n.parse::<u128>().map_err(|_| format!("int {} near {}", w, c.near()))?).wrapping_neg()
                        } else if let Some(h) = w.strip_prefix("u0x").or(w.strip_prefix("s0x")) {
                            u128::from_str_radix(h, 16).map_err(|_| format!("int {}", w))?
                        } else {
                            w.parse::<u128>().map_err(|_| format!("int '{}' near {}", w, c.near()))?
                        };
                        Ok(Opnd::C(v & crate::term::mask(bits)))
                    }
                }
            }
        }
    }
    /// (mutable?, thread_local?, type, initialiser)
    pub fn global_init(&mut self, id: u32) -> Res<(bool, Ty, Option<Opnd>)> {
        let (a, b) = self.globals[id as usize].span;
        let text = self.text.clone();
        let mut c = Cur { s: &text, p: a, end: b };
        let mut mutable = true;
        let mut external = false;
        loop {
            let w = c.word();
            if w == "global" {
                break;
            }
            if w == "constant" {
                mutable = false;
                break;
            }
            if w == "external" || w == "extern_weak" {
                external = true;
            }
            if w.is_empty() {
                if c.pk() == b'(' {
                    c.balanced();
                } else {
                    return Err(format!("global near {}", c.near()));
                }
            }
        }
        let t = self.ty(&mut c)?;
        if external {
            return Ok((mutable, t, None));
        }
        let mut regs = HashMap::new();
        let v = self.val(&mut c, &t, &mut regs)?;
        Ok((mutable, t, Some(v)))
    }
    pub fn alias_target(&mut self, id: u32) -> Res<u32> {
        let (a, b) = self.globals[id as usize].span;
        let s = &self.text.clone()[a..b];
        let k = s.iter().rposition(|c| *c == b'@').ok_or("alias")?;
        let mut c = Cur { s, p: k + 1, end: s.len() };
        let n = c.name();
        Ok(self.id(&n))
    }
    pub fn func(&mut self, id: u32) -> Res<Rc<Func>> {
        if let Some(f) = self.funcs.get(&id) {
            return Ok(f.clone());
        }
        let g = self.globals[id as usize].clone();
        if g.kind != GKind::Define {
            return Err(format!("no body for {}", g.name));
        }
        let text = self.text.clone();
        let mut c = Cur { s: &text, p: g.span.0, end: g.span.1 };
        let f = self.parse_func(&mut c, &g.name).map_err(|e| format!("{} (in {})", e, g.name))?;
        let f = Rc::new(f);
        self.funcs.insert(id, f.clone());
        Ok(f)
    }
    fn parse_func(&mut self, c: &mut Cur, name: &str) -> Res<Func> {
        c.eat_word("define");
        c.to_type();
        self.ty(c)?;
        c.need(b'@')?;
        c.name();
        c.need(b'(')?;
        let mut regs: HashMap<String, u32> = HashMap::new();
        let mut params = vec![];
        let mut unnamed = 0;
        if !c.eat(b')') {
            loop {
                if c.pk() == b'.' {
                    c.word();
                    c.need(b')')?;
                    break;
                }
                self.ty(c)?;
                loop {
                    match c.pk() {
                        b'%' => {
                            c.p += 1;
                            let n = c.name();
                            if n.parse::<u32>().is_ok() {
                                unnamed += 1;
                            }
                            let k = regs.len() as u32;
                            regs.insert(n, k);
                            params.push(k);
                        }
                        b',' | b')' => break,
                        b'(' => c.balanced(),
                        b'"' => {
                            c.name();
                        }
                        _ => {
                            if c.word().is_empty() {
                                return Err(format!("param near {}", c.near()));
                            }
                        }
                    }
                }
                if c.eat(b')') {
                    break;
                }
                c.need(b',')?;
            }
        }
        // rest of header
        while c.p < c.end && c.s[c.p] != b'\n' {
            c.p += 1;
        }
        // first pass: block labels
        let mut labels: HashMap<String, u32> = HashMap::new();
        let body_start = c.p;
        let mut p = body_start + 1;
        let mut nblocks = 0u32;
        let mut first = true;
        while p < c.end {
            let e = memchr(c.s, b'\n', p);
            let line = &c.s[p..e];
            if !line.is_empty() && line[0] != b' ' && line[0] != b';' && line[0] != b'}' && line[0] != b'\t' {
                // label
                let mut lc = Cur { s: c.s, p, end: e };
                let n = lc.name();
                labels.insert(n, nblocks);
                nblocks += 1;
                first = false;
            } else if first && line.len() > 2 && line[0] == b' ' && line.iter().any(|x| !x.is_ascii_whitespace()) {
                // implicit entry label takes the next unnamed number
                labels.insert(unnamed.to_string(), nblocks);
                nblocks += 1;
                first = false;
            }
            p = e + 1;
        }
        let mut blocks: Vec<Vec<I>> = vec![];
        let mut p = body_start + 1;
        let mut started = false;
        while p < c.end {
            let e = memchr(c.s, b'\n', p);
            let l0 = c.s[p];
            if e == p || l0 == b';' || l0 == b'}' {
                p = e + 1;
                continue;
            }
            if l0 != b' ' && l0 != b'\t' {
                blocks.push(vec![]);
                started = true;
                p = e + 1;
                continue;
            }
            if !started {
                blocks.push(vec![]);
                started = true;
            }
            // continuation lines (switch, invoke, landingpad) are indented further
            let mut e = e;
            while c.s[(e + 1).min(c.end)..c.end].starts_with(b"    ") || c.s[(e + 1).min(c.end)..c.end].starts_with(b"  ]") {
                e = memchr(c.s, b'\n', e + 1);
            }
            let mut ic = Cur { s: c.s, p, end: e.min(c.end) };
            let ins = self.inst(&mut ic, &mut regs, &labels)?;
            if let Some(i) = ins {
                blocks.last_mut().unwrap().push(i);
            }
            p = e + 1;
        }
        Ok(Func { name: name.to_string(), params, nregs: regs.len() as u32, blocks })
    }
    fn label(&mut self, c: &mut Cur, labels: &HashMap<String, u32>) -> Res<u32> {
        if !c.eat_word("label") {
            return Err(format!("label near {}", c.near()));
        }
        c.need(b'%')?;
        let n = c.name();
        labels.get(&n).copied().ok_or(format!("unknown label {}", n))
    }
    fn inst(&mut self, c: &mut Cur, regs: &mut HashMap<String, u32>, labels: &HashMap<String, u32>) -> Res<Option<I>> {
        c.ws();
        let start = c.p;
        let mut d: Option<u32> = None;
        if c.pk() == b'%' {
            c.p += 1;
            let n = c.name();
            let k = regs.len() as u32;
            d = Some(*regs.entry(n).or_insert(k));
            c.need(b'=')?;
        }
        let mut op = c.word();
        if matches!(op.as_str(), "tail" | "musttail" | "notail") {
            op = c.word();
        }
        let dd = d.unwrap_or(u32::MAX);
        if let Some(b) = binop(&op) {
            c.to_type();
            let ty = self.ty(c)?;
            let a = self.val(c, &ty, regs)?;
            c.need(b',')?;
            let bb = self.val(c, &ty, regs)?;
            return Ok(Some(I::Bin { d: dd, op: b, ty, a, b: bb }));
        }
        Ok(Some(match op.as_str() {
            "alloca" => {
                c.to_type();
                let t = self.ty(c)?;
                let mut n = Opnd::C(1);
                let mut align = t.align();
                while c.eat(b',') {
                    if c.eat_word("align") {
                        align = c.word().parse().map_err(|_| "align")?;
                    } else if c.pk() == b'!' {
                        break;
                    } else {
                        let it = self.ty(c)?;
                        n = self.val(c, &it, regs)?;
                    }
                }
                I::Alloca { d: dd, size: t.size(), align, n }
            }
            "load" => {
                c.to_type();
                let ty = self.ty(c)?;
                c.need(b',')?;
                let pt = self.ty(c)?;
                let p = self.val(c, &pt, regs)?;
                I::Load { d: dd, ty, p }
            }
            "store" => {
                c.to_type();
                let ty = self.ty(c)?;
                let v = self.val(c, &ty, regs)?;
                c.need(b',')?;
                let pt = self.ty(c)?;
                let p = self.val(c, &pt, regs)?;
                I::Store { ty, v, p }
            }
            "getelementptr" => {
                c.to_type();
                let t = self.ty(c)?;
                c.need(b',')?;
                let bt = self.ty(c)?;
                let base = self.val(c, &bt, regs)?;
                let mut off = 0i64;
                let mut idx = vec![];
                let mut cur = t.clone();
                let mut first = true;
                while c.eat(b',') {
                    if c.pk() == b'!' {
                        break;
                    }
                    c.to_type();
                    let it = self.ty(c)?;
                    let i = self.val(c, &it, regs)?;
                    let (scale, next) = if first {
                        (t.size() as i64, t.clone())
                    } else {
                        match &cur {
                            Ty::Struct(..) => {
                                if let Opnd::C(v) = i {
                                    let (o, f) = cur.field(v as usize);
                                    off += o as i64;
                                    cur = f;
                                    continue;
                                }
                                return Err("gep struct idx".into());
                            }
                            Ty::Arr(_, e) | Ty::Vec(_, e) => (e.size() as i64, (**e).clone()),
                            _ => return Err("gep type".into()),
                        }
                    };
                    first = false;
                    cur = next;
                    match i {
                        Opnd::C(v) => off = off.wrapping_add((crate::term::sx(v, it.bits()) as i64).wrapping_mul(scale)),
                        o => idx.push((o, it.bits(), scale)),
                    }
                }
                I::Gep { d: dd, base, off, idx }
            }
            "fneg" => {
                c.to_type();
                let ty = self.ty(c)?;
                let a = self.val(c, &ty, regs)?;
                I::FNeg { d: dd, ty, a }
            }
            "icmp" => {
                let mut w = c.word();
                if w == "samesign" {
                    w = c.word();
                }
                let p = pred(&w)?;
                let ty = self.ty(c)?;
                let a = self.val(c, &ty, regs)?;
                c.need(b',')?;
                let b = self.val(c, &ty, regs)?;
                I::Icmp { d: dd, p, ty, a, b }
            }
            "fcmp" => {
                let mut p;
                loop {
                    p = c.word();
                    if !matches!(p.as_str(), "fast" | "nnan" | "ninf" | "nsz" | "arcp" | "contract" | "afn" | "reassoc") {
                        break;
                    }
                }
                let ty = self.ty(c)?;
                let a = self.val(c, &ty, regs)?;
                c.need(b',')?;
                let b = self.val(c, &ty, regs)?;
                I::Fcmp { d: dd, p, ty, a, b }
            }
            "zext" | "sext" | "trunc" | "bitcast" | "ptrtoint" | "inttoptr" | "fptosi" | "fptoui" | "sitofp" | "uitofp"
            | "fpext" | "fptrunc" | "addrspacecast" => {
                c.to_type();
                let from = self.ty(c)?;
                let a = self.val(c, &from, regs)?;
                if !c.eat_word("to") {
                    return Err(format!("cast near {}", c.near()));
                }
                let to = self.ty(c)?;
                let o = match op.as_str() {
                    "zext" => CastOp::ZExt,
                    "sext" => CastOp::SExt,
                    "trunc" => CastOp::Trunc,
                    "fptosi" => CastOp::FpToSi,
                    "fptoui" => CastOp::FpToUi,
                    "sitofp" => CastOp::SiToFp,
                    "uitofp" => CastOp::UiToFp,
                    "fpext" => CastOp::FpExt,
                    "fptrunc" => CastOp::FpTrunc,
                    _ => CastOp::Bit,
                };
                I::Cast { d: dd, op: o, from, to, a }
            }
            "call" | "invoke" => {
                c.to_type();
                let ret = self.ty(c)?;
                if c.pk() == b'(' {
                    c.balanced();
                }
                let f = self.val(c, &Ty::Ptr, regs)?;
                if let Opnd::Asm = f {
                    return Ok(Some(I::Unsupported("inline asm".into())));
                }
                c.need(b'(')?;
                let mut args = vec![];
                if !c.eat(b')') {
                    loop {
                        c.to_type();
                        let t = self.ty(c)?;
                        if t == Ty::Other {
                            // metadata argument
                            let mut depth = 0;
                            loop {
                                let ch = c.pk();
                                if depth == 0 && (ch == b',' || ch == b')') {
                                    break;
                                }
                                if ch == b'(' {
                                    depth += 1;
                                }
                                if ch == b')' {
                                    depth -= 1;
                                }
                                c.p += 1;
                            }
                            args.push((t, Opnd::Undef));
                        } else {
                            loop {
                                // argument attributes
                                match c.pk() {
                                    b'%' | b'@' | b'{' | b'[' | b'<' | b'-' | b'0'..=b'9' => break,
                                    b'(' => c.balanced(),
                                    _ => {
                                        let w = c.peek_word();
                                        if matches!(
                                            w.as_str(),
                                            "true" | "false" | "null" | "undef" | "poison" | "zeroinitializer" | "getelementptr" | "ptrtoint" | "inttoptr" | "trunc" | "sub" | "add" | "icmp" | "xor" | "none" | "bitcast" | "zext"
                                        ) {
                                            break;
                                        }
                                        if w == "c" {
                                            break;
                                        }
                                        c.word();
                                        if w == "align" {
                                            c.ws();
                                            if c.pk() == b'(' {
                                                c.balanced();
                                            } else {
                                                c.word();
                                            }
                                        }
                                        if w.is_empty() {
                                            return Err(format!("call arg near {}", c.near()));
                                        }
                                    }
                                }
                            }
                            let v = self.val(c, &t, regs)?;
                            args.push((t, v));
                        }
                        if c.eat(b')') {
                            break;
                        }
                        c.need(b',')?;
                    }
                }
                let mut normal = None;
                if op == "invoke" {
                    // attributes, then: to label %x unwind label %y
                    loop {
                        match c.pk() {
                            b'#' => {
                                c.p += 1;
                                c.word();
                            }
                            b'[' => {
                                while c.p < c.end && c.s[c.p] != b']' {
                                    c.p += 1;
                                }
                                c.p += 1;
                            }
                            b'(' => c.balanced(),
                            _ => {
                                let w = c.word();
                                if w == "to" {
                                    break;
                                }
                                if w.is_empty() {
                                    return Err(format!("invoke near {}", c.near()));
                                }
                            }
                        }
                    }
                    normal = Some(self.label(c, labels)?);
                    c.eat_word("unwind");
                    let _ = self.label(c, labels)?;
                }
                I::Call { d, ret, f, args: Rc::new(args), normal }
            }
            "phi" => {
                c.to_type();
                let ty = self.ty(c)?;
                let mut ins = vec![];
                loop {
                    c.need(b'[')?;
                    let v = self.val(c, &ty, regs)?;
                    c.need(b',')?;
                    c.need(b'%')?;
                    let n = c.name();
                    let l = *labels.get(&n).ok_or(format!("phi label {}", n))?;
                    c.need(b']')?;
                    ins.push((l, v));
                    if !c.eat(b',') {
                        break;
                    }
                    if c.pk() == b'!' {
                        break;
                    }
                }
                I::Phi { d: dd, ins: Rc::new(ins), ty }
            }
            "select" => {
                c.to_type();
                let cty = self.ty(c)?;
                let cv = self.val(c, &cty, regs)?;
                c.need(b',')?;
                let ty = self.ty(c)?;
                let a = self.val(c, &ty, regs)?;
                c.need(b',')?;
                let t2 = self.ty(c)?;
                let b = self.val(c, &t2, regs)?;
                I::Select { d: dd, c: cv, cty, ty, a, b }
            }
            "extractvalue" => {
                let ty = self.ty(c)?;
                let a = self.val(c, &ty, regs)?;
                let mut path = vec![];
                while c.eat(b',') {
                    if c.pk() == b'!' {
                        break;
                    }
                    path.push(c.word().parse().map_err(|_| "extractvalue")?);
                }
                I::Extract { d: dd, a, path }
            }
            "insertvalue" => {
                let ty = self.ty(c)?;
                let a = self.val(c, &ty, regs)?;
                c.need(b',')?;
                let t2 = self.ty(c)?;
                let v = self.val(c, &t2, regs)?;
                let mut path = vec![];
                while c.eat(b',') {
                    if c.pk() == b'!' {
                        break;
                    }
                    path.push(c.word().parse().map_err(|_| "insertvalue")?);
                }
                I::Insert { d: dd, ty, a, v, path }
            }
            "extractelement" => {
                let ty = self.ty(c)?;
                let a = self.val(c, &ty, regs)?;
                c.need(b',')?;
                let it = self.ty(c)?;
                let i = self.val(c, &it, regs)?;
                I::ExtractEl { d: dd, ty, a, i }
            }
            "insertelement" => {
                let ty = self.ty(c)?;
                let a = self.val(c, &ty, regs)?;
                c.need(b',')?;
                let et = self.ty(c)?;
                let v = self.val(c, &et, regs)?;
                c.need(b',')?;
                let it = self.ty(c)?;
                let i = self.val(c, &it, regs)?;
                I::InsertEl { d: dd, ty, a, v, i }
            }
            "shufflevector" => {
                let ty = self.ty(c)?;
                let a = self.val(c, &ty, regs)?;
                c.need(b',')?;
                let _ = self.ty(c)?;
                let b = self.val(c, &ty, regs)?;
                c.need(b',')?;
                let mt = self.ty(c)?;
                let m = self.val(c, &mt, regs)?;
                let n = mt.count();
                let mask = match m {
                    Opnd::Zero(_) => vec![0; n],
                    Opnd::Undef => vec![-1; n],
                    Opnd::Agg(v) => v
                        .iter()
                        .map(|(_, x)| match x {
                            Opnd::C(v) => *v as i64,
                            _ => -1,
                        })
                        .collect(),
                    _ => return Err("shuffle mask".into()),
                };
                I::Shuffle { d: dd, ty, a, b, mask }
            }
            "freeze" => {
                let ty = self.ty(c)?;
                let a = self.val(c, &ty, regs)?;
                I::Freeze { d: dd, a }
            }
            "br" => {
                if c.peek_word() == "label" {
                    I::Br(self.label(c, labels)?)
                } else {
                    let t = self.ty(c)?;
                    let v = self.val(c, &t, regs)?;
                    c.need(b',')?;
                    let a = self.label(c, labels)?;
                    c.need(b',')?;
                    let b = self.label(c, labels)?;
                    I::CBr(v, a, b)
                }
            }
            "switch" => {
                let t = self.ty(c)?;
                let v = self.val(c, &t, regs)?;
                c.need(b',')?;
                let def = self.label(c, labels)?;
                c.need(b'[')?;
                let mut cases = vec![];
                while !c.eat(b']') {
                    let ct = self.ty(c)?;
                    let k = match self.val(c, &ct, regs)? {
                        Opnd::C(k) => k,
                        _ => return Err("switch case".into()),
                    };
                    c.need(b',')?;
                    let l = self.label(c, labels)?;
                    cases.push((k, l));
                }
                I::Switch { w: t.bits(), v, def, cases: Rc::new(cases) }
            }
            "ret" => {
                let ty = self.ty(c)?;
                if ty == Ty::Void {
                    I::Ret(Ty::Void, Opnd::Undef)
                } else {
                    let v = self.val(c, &ty, regs)?;
                    I::Ret(ty, v)
                }
            }
            "unreachable" => I::Unreachable,
            "fence" => I::Nop,
            "atomicrmw" => {
                let mut o = c.word();
                if o == "volatile" {
                    o = c.word();
                }
                let pt = self.ty(c)?;
                let p = self.val(c, &pt, regs)?;
                c.need(b',')?;
                let t = self.ty(c)?;
                let v = self.val(c, &t, regs)?;
                I::Rmw { d: dd, op: o, w: t.bits(), p, v }
            }
            "cmpxchg" => {
                c.to_type();
                let pt = self.ty(c)?;
                let p = self.val(c, &pt, regs)?;
                c.need(b',')?;
                let t = self.ty(c)?;
                let cv = self.val(c, &t, regs)?;
                c.need(b',')?;
                let _ = self.ty(c)?;
                let n = self.val(c, &t, regs)?;
                I::CmpXchg { d: dd, w: t.bits(), p, c: cv, n }
            }
            "landingpad" | "resume" => I::Unsupported(op.clone()),
            "cleanup" | "catch" | "filter" => return Ok(None),
            _ => {
                c.p = start;
                c.eol();
                I::Unsupported(String::from_utf8_lossy(&c.s[start..c.p.min(start + 120)]).to_string())
            }
        }))
    }
}

fn binop(w: &str) -> Option<BinOp> {
    Some(match w {
        "add" => BinOp::Add,
        "sub" => BinOp::Sub,
        "mul" => BinOp::Mul,
        "udiv" => BinOp::UDiv,
        "sdiv" => BinOp::SDiv,
        "urem" => BinOp::URem,
        "srem" => BinOp::SRem,
        "shl" => BinOp::Shl,
        "lshr" => BinOp::LShr,
        "ashr" => BinOp::AShr,
        "and" => BinOp::And,
        "or" => BinOp::Or,
        "xor" => BinOp::Xor,
        "fadd" => BinOp::FAdd,
        "fsub" => BinOp::FSub,
        "fmul" => BinOp::FMul,
        "fdiv" => BinOp::FDiv,
        "frem" => BinOp::FRem,
        _ => return None,
    })
}
fn pred(w: &str) -> Res<Pred> {
    Ok(match w {
        "eq" => Pred::Eq,
        "ne" => Pred::Ne,
        "ugt" => Pred::Ugt,
        "uge" => Pred::Uge,
        "ult" => Pred::Ult,
        "ule" => Pred::Ule,
        "sgt" => Pred::Sgt,
        "sge" => Pred::Sge,
        "slt" => Pred::Slt,
        "sle" => Pred::Sle,
        _ => return Err(format!("predicate {}", w)),
    })
}
fn memchr(s: &[u8], c: u8, from: usize) -> usize {
    if from >= s.len() {
        return s.len();
    }
    match s[from..].iter().position(|x| *x == c) {
        Some(i) => from + i,
        None => s.len(),
    }
}
fn find_word(s: &[u8], w: &[u8]) -> bool {
    // " alias " before any initialiser text
    let lim = s.iter().position(|c| *c == b'{' || *c == b'[' || *c == b'<').unwrap_or(s.len());
    s[..lim].windows(w.len() + 2).any(|x| x[0] == b' ' && &x[1..w.len() + 1] == w && x[w.len() + 1] == b' ')
}
fn header_name(s: &[u8], p: usize, e: usize) -> String {
    let k = (p..e).find(|i| s[*i] == b'@').unwrap_or(e);
    let mut c = Cur { s, p: k + 1, end: e };
    c.name()
}
