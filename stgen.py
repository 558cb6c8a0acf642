#!/usr/bin/env python3
"""stgen.py DIR [-o FILE]: translate the Structured Text functions (not generic, not external) in DIR/*.st to Rust.

No ST compiler can be had here, so the meaning given to the source is the one of RuSTy, the compiler the library is
written for: assignments convert implicitly (integers are truncated, or extended by the sign of the source type; int to
float, float to float and float to int as LLVM's sitofp, uitofp, fptrunc, fpext, fptosi, fptoui), integer arithmetic and
comparison happen in at least 32 bits, `x.n` is bit n, a generic call F(a) is F__<type of a>, variables and return values
start zeroed, strings are zero terminated arrays of their declared length plus one, {ref}, VAR_IN_OUT and VAR_OUTPUT
arguments are passed as pointers. A pointer remembers how many bytes it points at; reading more through it panics.
"""
import glob, os, re, sys


class Unsupported(Exception):
    pass


INTS = {"BOOL": (8, 0), "SINT": (8, 1), "USINT": (8, 0), "INT": (16, 1), "UINT": (16, 0), "DINT": (32, 1), "UDINT": (32, 0), "LINT": (64, 1), "ULINT": (64, 0), "BYTE": (8, 0), "WORD": (16, 0), "DWORD": (32, 0), "LWORD": (64, 0), "CHAR": (8, 0), "WCHAR": (16, 0), "TIME": (64, 1), "DATE": (64, 1), "TIME_OF_DAY": (64, 1), "DATE_AND_TIME": (64, 1)}
ALIAS = {"TOD": "TIME_OF_DAY", "LTOD": "TIME_OF_DAY", "LTIME_OF_DAY": "TIME_OF_DAY", "DT": "DATE_AND_TIME", "LDT": "DATE_AND_TIME", "LDATE_AND_TIME": "DATE_AND_TIME", "LTIME": "TIME", "LDATE": "DATE"}
FLOATS = {"REAL": 32, "LREAL": 64}


class Ty:
    """kind: int, float, str (elem width, room in elements), ref (of), void"""

    def __init__(self, kind, name, w=0, s=0, n=0, of=None):
        self.kind, self.name, self.w, self.s, self.n, self.of = kind, name, w, s, n, of

    def rust(self):
        if self.kind == "int":
            return ("i" if self.s else "u") + str(self.w)
        if self.kind == "float":
            return f"f{self.w}"
        if self.kind == "str":
            return f"[u{self.w}; {self.n}]"
        if self.kind == "ref":
            return "StRef"
        raise Unsupported(f"type {self.name}")

    def size(self):
        return self.w // 8 * (self.n if self.kind == "str" else 1)

    def zero(self):
        return {"int": "0", "float": "0.0", "str": f"[0; {self.n}]", "ref": "StRef::null()"}[self.kind]


TOK = re.compile(r"""\s*(?:(?P<real>\d[\d_]*\.\d+(?:[eE][+-]?\d+)?)|(?P<based>\d+\#[0-9A-Fa-f_]+)|(?P<int>\d[\d_]*)|(?P<id>[A-Za-z_]\w*|%[XBWDxbwd]\d+)
|(?P<str>'[^']*'|"[^"]*")|(?P<op>:=|=>|<>|<=|>=|\*\*|\.\.\.|[-+*/()=<>&^.,;:\[\]{}\#]))""", re.X)


def strip_comments(s):
    """(* *) and /* */ (nested), // to the end of the line; line structure is kept"""
    out, i, stack = [], 0, []
    while i < len(s):
        two = s[i:i + 2]
        if two in ("(*", "/*"):
            stack.append("*)" if two == "(*" else "*/")
            i += 2
        elif stack and two == stack[-1]:
            stack.pop()
            i += 2
        elif stack:
            out.append("\n" if s[i] == "\n" else " ")
            i += 1
        elif two == "//":
            while i < len(s) and s[i] != "\n":
                i += 1
        else:
            out.append(s[i])
            i += 1
    return "".join(out)


def tokens(s):
    s = strip_comments(s)
    out, i = [], 0
    while i < len(s):
        if s[i:].strip() == "":
            break
        m = TOK.match(s, i)
        if not m:
            out.append(("op", "\\"))  # nothing the grammar knows
            i = len(s) - len(s[i:].lstrip()) + 1
            continue
        k = m.lastgroup
        out.append((k, m.group(k)))
        i = m.end()
    return out


class Fn:
    def __init__(self):
        self.name, self.generics, self.ret, self.external = "", [], None, False
        self.members, self.block = [], False  # members: (name, type tokens, kind, initial value)
        self.params, self.locals, self.body = [], [], None  # params: (name, type tokens, kind, ref, variadic)


class Parser:
    def __init__(self, toks):
        self.t, self.i = toks, 0

    def peek(self, k=0):
        return self.t[self.i + k][1] if self.i + k < len(self.t) else ""

    def up(self, k=0):
        return self.peek(k).upper()

    def next(self):
        x = self.t[self.i]
        self.i += 1
        return x[1]

    def accept(self, x):
        if self.up() == x:
            self.i += 1
            return True
        return False

    def expect(self, x):
        if not self.accept(x):
            raise Unsupported(f"expected {x}, found {self.peek()}")

    def pragma(self):
        self.expect("{")
        s = ""
        while self.peek() != "}":
            s += self.next()
        self.expect("}")
        return s.lower()

    def typename(self):
        """a type as written: list of tokens"""
        out = [self.next()]
        if out[0].upper() in ("REF_TO", "POINTER"):
            if self.up() == "TO":
                self.next()
            return ["REF_TO", self.typename()]
        if self.accept("["):
            e = []
            while not self.accept("]"):
                e.append(self.next())
            out.append(e)
        if out[0].upper() == "ARRAY":
            self.expect("OF")
            out.append(self.typename())
        return out

    def top(self):
        fns, consts = [], {}
        ext = False
        while self.i < len(self.t):
            if self.peek() == "{":
                ext = self.pragma() == "external" or ext
            elif self.up() in ("FUNCTION", "FUNCTION_BLOCK", "PROGRAM"):
                kind = self.up()
                start = self.i
                try:
                    f = self.function(kind)
                    f.external = ext
                    f.block = kind != "FUNCTION"
                    fns.append(f)
                except Unsupported as e:
                    f = Fn()
                    self.i = start
                    self.next()
                    f.name = self.peek()
                    f.bad = str(e)
                    while self.i < len(self.t) and self.next().upper() != "END_" + kind:
                        pass
                    fns.append(f)
                ext = False
            elif self.up() == "VAR_GLOBAL":
                self.next()
                if self.peek() == "{":
                    self.pragma()
                while self.up() in ("CONSTANT", "RETAIN"):
                    self.next()
                while not self.accept("END_VAR"):
                    n = self.next()
                    self.expect(":")
                    self.typename()
                    if self.accept(":="):
                        consts[n.lower()] = self.expr()
                    self.expect(";")
            elif self.accept(";"):
                pass
            else:
                self.next()
        return fns, consts

    def function(self, kind):
        f = Fn()
        f.bad = None
        self.next()
        f.name = self.next()
        if self.accept("<"):
            while True:
                n = self.next()
                self.expect(":")
                self.next()
                f.generics.append(n.upper())
                if self.accept(">"):
                    break
                self.expect(",")
        if self.accept(":"):
            f.ret = self.typename()
        end = "END_" + kind
        while self.up() in ("VAR", "VAR_INPUT", "VAR_OUTPUT", "VAR_IN_OUT", "VAR_TEMP"):
            sec = self.next().upper()
            ref = False
            if self.peek() == "{":
                ref = self.pragma() == "ref"
            while self.up() in ("CONSTANT", "RETAIN"):
                self.next()
            while not self.accept("END_VAR"):
                names = [self.next()]
                while self.accept(","):
                    names.append(self.next())
                self.expect(":")
                variadic = False
                if self.peek() == "{":
                    self.pragma()
                    variadic = True
                ty = self.typename()
                if self.accept("..."):
                    variadic = True
                init = None
                if self.accept(":="):
                    init = self.expr()
                self.expect(";")
                for n in names:
                    f.members.append((n, ty, sec, init))
                    if sec in ("VAR", "VAR_TEMP"):
                        f.locals.append((n, ty, init))
                    else:
                        f.params.append((n, ty, sec, ref, variadic))
        f.body = self.stmts({end})
        self.expect(end)
        return f

    def stmts(self, ends):
        out = []
        while self.up() not in ends:
            if self.i >= len(self.t):
                raise Unsupported("end of file in a body")
            s = self.stmt()
            if s:
                out.append(s)
        return out

    def stmt(self):
        if self.accept(";"):
            return None
        if self.accept("IF"):
            arms, other = [], []
            c = self.expr()
            self.expect("THEN")
            arms.append((c, self.stmts({"ELSIF", "ELSE", "END_IF"})))
            while self.accept("ELSIF"):
                c = self.expr()
                self.expect("THEN")
                arms.append((c, self.stmts({"ELSIF", "ELSE", "END_IF"})))
            if self.accept("ELSE"):
                other = self.stmts({"END_IF"})
            self.expect("END_IF")
            return ("if", arms, other)
        if self.accept("WHILE"):
            c = self.expr()
            self.expect("DO")
            b = self.stmts({"END_WHILE"})
            self.expect("END_WHILE")
            return ("while", c, b)
        if self.accept("REPEAT"):
            b = self.stmts({"UNTIL"})
            self.expect("UNTIL")
            c = self.expr()
            self.accept(";")
            self.expect("END_REPEAT")
            return ("repeat", b, c)
        if self.accept("FOR"):
            v = self.postfix()
            self.expect(":=")
            a = self.expr()
            self.expect("TO")
            b = self.expr()
            step = self.expr() if self.accept("BY") else ("int", 1)
            self.expect("DO")
            body = self.stmts({"END_FOR"})
            self.expect("END_FOR")
            return ("for", v, a, b, step, body)
        if self.accept("CASE"):
            e = self.expr()
            self.expect("OF")
            arms, other = [], []
            while self.up() not in ("ELSE", "END_CASE"):
                labels = [self.expr()]
                while self.accept(","):
                    labels.append(self.expr())
                self.expect(":")
                body = []
                while self.up() not in ("ELSE", "END_CASE") and not self.at_label():
                    s = self.stmt()
                    if s:
                        body.append(s)
                arms.append((labels, body))
            if self.accept("ELSE"):
                other = self.stmts({"END_CASE"})
            self.expect("END_CASE")
            return ("case", e, arms, other)
        if self.accept("RETURN"):
            self.accept(";")
            return ("return",)
        if self.accept("EXIT"):
            self.accept(";")
            return ("exit",)
        if self.accept("CONTINUE"):
            self.accept(";")
            return ("continue",)
        e = self.expr()
        if self.accept(":="):
            v = self.expr()
            self.expect(";")
            return ("assign", e, v)
        self.expect(";")
        return ("eval", e)

    def at_label(self):
        j = self.i
        if self.t[j][1] == "-":
            j += 1
        return self.t[j][0] in ("int", "based") and j + 1 < len(self.t) and self.t[j + 1][1] in (":", ",")

    LEVELS = [["OR"], ["XOR"], ["AND", "&"], ["=", "<>"], ["<", ">", "<=", ">="], ["+", "-"], ["*", "/", "MOD"], ["**"]]

    def expr(self, lvl=0):
        if lvl == len(self.LEVELS):
            return self.unary()
        a = self.expr(lvl + 1)
        while self.up() in self.LEVELS[lvl]:
            op = self.next().upper()
            a = ("bin", "AND" if op == "&" else op, a, self.expr(lvl + 1))
        return a

    def unary(self):
        if self.accept("-"):
            e = self.unary()
            if e[0] in ("int", "real"):
                return (e[0], -e[1])
            return ("neg", e)
        if self.accept("+"):
            return self.unary()
        if self.accept("NOT"):
            return ("not", self.unary())
        if self.accept("&"):
            return ("addr", self.unary())
        return self.postfix()

    def postfix(self):
        k = self.t[self.i][0] if self.i < len(self.t) else "op"
        if self.accept("("):
            e = self.expr()
            self.expect(")")
        elif k == "int":
            e = ("int", int(self.next().replace("_", "")))
        elif k == "based":
            b, d = self.next().split("#")
            e = ("int", int(d.replace("_", ""), int(b)))
        elif k == "real":
            e = ("real", float(self.next().replace("_", "")))
        elif k == "str":
            e = ("str", self.next())
        elif k == "id":
            n = self.next()
            if n.upper() in ("TRUE", "FALSE"):
                e = ("bool", int(n.upper() == "TRUE"))
            elif self.peek() == "#":
                self.next()
                lit = self.unary()
                e = ("typed", n, lit)
            else:
                e = ("var", n)
        else:
            raise Unsupported(f"expression at {self.peek()}")
        while True:
            if self.accept("^"):
                e = ("deref", e)
            elif self.peek() == "." and self.t[self.i + 1][0] == "int":
                self.next()
                e = ("bit", e, int(self.next()))
            elif self.peek() == "." and self.t[self.i + 1][0] == "id" and re.fullmatch(r"%[XBWD]\d+", self.peek(1), re.I):
                if self.peek(1)[1].upper() != "X":
                    raise Unsupported("direct access")
                self.next()
                e = ("bit", e, int(self.next()[2:]))
            elif e[0] == "var" and self.accept("("):
                args = []
                while not self.accept(")"):
                    nm = None
                    if self.t[self.i][0] == "id" and self.peek(1) in (":=", "=>"):
                        nm = self.next()
                        self.next()
                    args.append((nm, self.expr()))
                    if self.peek() != ")":
                        self.expect(",")
                e = ("call", e[1], args)
            else:
                return e


class Gen:
    def __init__(self, files, rust=None):
        """rust: text of the Rust half; external functions that have a body and no counterpart there fail when called"""
        self.rust = rust
        self.fns, self.consts, self.order = {}, {}, []
        for path, text in files:
            try:
                fns, consts = Parser(tokens(text)).top()
            except Unsupported as e:
                raise Unsupported(f"{os.path.basename(path)}: {e}")
            for k, v in consts.items():
                self.consts[k] = v
            for f in fns:
                f.file = os.path.basename(path)
                self.fns[f.name.upper()] = f
                self.order.append(f)
        self.externs = {}
        self.lens = []

    def ty(self, t, env=None):
        n = t[0].upper()
        if env and n in env:
            return env[n]
        if n == "REF_TO":
            return Ty("ref", "REF_TO", of=self.ty(t[1], env))
        n = ALIAS.get(n, n)
        if n in INTS:
            return Ty("int", n, *INTS[n])
        if n in FLOATS:
            return Ty("float", n, FLOATS[n], 1)
        if n in ("STRING", "WSTRING"):
            ln = 80
            if len(t) > 1:
                p = Parser(tokens(" ".join(t[1])))
                ln = self.fold(p.expr())
                if p.i < len(p.t):
                    raise Unsupported("string length " + " ".join(t[1]))
            return Ty("str", n, 8 if n == "STRING" else 16, 0, ln + 1)
        raise Unsupported("type " + n)

    def fold(self, e):
        """value of a constant expression of integers"""
        if e[0] == "int":
            return e[1]
        if e[0] == "typed":
            return self.fold(e[2])
        if e[0] == "var" and e[1].lower() in self.consts:
            return self.fold(self.consts[e[1].lower()])
        if e[0] == "neg":
            return -self.fold(e[1])
        if e[0] == "bin" and e[1] in "+-*":
            a, b = self.fold(e[2]), self.fold(e[3])
            return {"+": a + b, "-": a - b, "*": a * b}[e[1]]
        raise Unsupported("constant expression")

    # ---- one function
    def function(self, f):
        self.f = f
        self.loop = 0
        self.vars = {}
        self.tmp = 0
        self.lines = []
        sig = []
        ret = self.ty(f.ret) if f.ret else None
        for n, t, sec, ref, var in f.params:
            if var:
                raise Unsupported("variadic function with a body")
            ty = self.ty(t)
            v = "v_" + n.lower()
            byref = sec != "VAR_INPUT" or ref
            if byref:
                el = f"u{ty.w}" if ty.kind == "str" else ty.rust()
                sig.append(f"{v}: *mut {el}")
            else:
                sig.append(f"mut {v}: {ty.rust()}")
            self.vars[n.lower()] = (v, ty, byref)
        pre = []
        if ret:
            if ret.kind == "str":
                sig.append(f"ret: *mut u{ret.w}")
                pre.append(f"core::ptr::write_bytes(ret, 0, {ret.n});")
                self.lens.append((f.name, ret.n))
                self.vars[f.name.lower()] = ("ret", ret, True)
            else:
                pre.append(f"let mut ret: {ret.rust()} = {ret.zero()};")
                self.vars[f.name.lower()] = ("ret", ret, False)
        for n, t, init in f.locals:
            ty = self.ty(t)
            v = "v_" + n.lower()
            if ty.kind == "str":
                # room of its own, so that an access beyond it does not go unnoticed
                self.vars[n.lower()] = (v, ty, True)
                pre.append(f"let {v} = room({ty.size()}) as *mut u{ty.w};")
                pre.append(f"core::ptr::write_bytes({v}, 0, {ty.n});")
                continue
            self.vars[n.lower()] = (v, ty, False)
            pre.append(f"let mut {v}: {ty.rust()} = {ty.zero()};")
        self.ret = ret
        self.ind = 1
        self.out = []
        for n, t, init in f.locals:
            if init is not None:
                self.stmt(("assign", ("var", n), init))
        for s in f.body:
            self.stmt(s)
        r = f" -> {ret.rust()}" if ret and ret.kind != "str" else ""
        tail = ["ret"] if r else []
        body = "\n".join("    " + x for x in pre) + "\n" + "\n".join(self.out) + ("\n" if self.out else "") + "".join(f"    {x}\n" for x in tail)
        return f"// {f.file}\n#[inline(never)]\npub unsafe fn {f.name}({', '.join(sig)}){r} {{\n{body}}}\n"

    def emit(self, s):
        self.out.append("    " * self.ind + s)

    def unescape(self, s, wide):
        """$-escapes of a literal"""
        named = {"L": "\n", "N": "\n", "P": "\f", "R": "\r", "T": "\t", "$": "$", "'": "'", '"': '"'}
        n = 4 if wide else 2

        def sub(m):
            x = m.group(1)
            if x.upper() in named:
                return named[x.upper()]
            if len(x) < n or int(x, 16) >= (0x80 if n == 2 else 0xD800):
                raise Unsupported("escape in a text")
            return chr(int(x, 16))

        return re.sub(r"\$([0-9A-Fa-f]{%d}|.)" % n, sub, s)

    def place(self, e):
        """(rust place expression, type, pointer expression to its first element)"""
        if e[0] == "var":
            k = e[1].lower()
            if k not in self.vars:
                raise Unsupported(f"name {e[1]}")
            v, ty, byref = self.vars[k]
            if ty.kind == "str":
                return (v, ty, v if byref else f"(core::ptr::addr_of_mut!({v}) as *mut u{ty.w})")
            if byref:
                return (f"(*{v})", ty, v)
            return (v, ty, f"core::ptr::addr_of_mut!({v})")
        if e[0] == "deref":
            p, ty = self.value(e[1])
            if ty.kind != "ref":
                raise Unsupported("^ of a value that is no pointer")
            o = ty.of
            el = f"u{o.w}" if o.kind == "str" else o.rust()
            ptr = f"({p}.at({o.size()}) as *mut {el})"
            return (f"(*{ptr})", o, ptr)
        raise Unsupported(f"{e[0]} is no variable")

    def cast(self, x, a, b):
        if a.kind == b.kind == "int" and a.w == b.w and a.s == b.s:
            return x
        if a.kind == "float" and b.kind == "float" and a.w == b.w:
            return x
        if b.name == "BOOL" and a.name != "BOOL" and (a.kind != "int" or a.w != 8):
            raise Unsupported(f"{a.name} assigned to BOOL")
        if a.kind in ("int", "float") and b.kind in ("int", "float"):
            return f"({x} as {b.rust()})"
        raise Unsupported(f"conversion of {a.name} to {b.name}")

    def common(self, a, b):
        if a.kind == "float" or b.kind == "float":
            w = 64 if any(t.kind == "float" and t.w == 64 for t in (a, b)) else 32
            return Ty("float", "LREAL" if w == 64 else "REAL", w, 1)
        if a.kind != "int" or b.kind != "int":
            raise Unsupported("arithmetic on " + a.name + " and " + b.name)
        w = max(32, a.w, b.w)
        s = 1
        if (a.w == w and not a.s and (b.w < w or not b.s)) or (b.w == w and not b.s and (a.w < w or not a.s)):
            s = 0
        names = {(32, 1): "DINT", (32, 0): "UDINT", (64, 1): "LINT", (64, 0): "ULINT"}
        return Ty("int", names[(w, s)], w, s)

    def value(self, e, want=None):
        k = e[0]
        D = self.ty(["DINT"])
        if k == "int":
            t = D if -(1 << 31) <= e[1] < (1 << 31) else self.ty(["LINT"]) if e[1] < (1 << 63) else self.ty(["ULINT"])
            if want is not None and want.kind == "int" and want.w >= 32:
                lo, hi = (-(1 << (want.w - 1)), 1 << (want.w - 1)) if want.s else (0, 1 << want.w)
                if lo <= e[1] < hi:
                    t = want
            return (f"({e[1]}_{t.rust()})" if e[1] < 0 else f"{e[1]}_{t.rust()}", t)
        if k == "real":
            t = want if want is not None and want.kind == "float" else self.ty(["REAL" if e[1] == int(e[1]) and abs(e[1]) < 1 << 24 else "LREAL"])
            return (f"({e[1]!r}_{t.rust()})", t)
        if k == "bool":
            return (f"{e[1]}_u8", self.ty(["BOOL"]))
        if k == "str":
            wide = e[1][0] == '"'
            txt = self.unescape(e[1][1:-1], wide)
            codes = list(memoryview(txt.encode("utf-16-le")).cast("H")) if wide else list(txt.encode())
            t = Ty("str", "WSTRING" if wide else "STRING", 16 if wide else 8, 0, len(codes) + 1)
            self.tmp += 1
            self.emit(f"let mut t{self.tmp}: {t.rust()} = [{', '.join(map(str, codes + [0]))}];")
            return (f"t{self.tmp}.as_mut_ptr()", t)
        if k == "typed" and e[1].upper() in ("STRING", "WSTRING"):
            return self.value(e[2], want)
        if k == "typed":
            t = self.ty([e[1]])
            v, a = self.value(e[2], t)
            return (self.cast(v, a, t), t)
        if k == "var" and e[1].lower() not in self.vars and e[1].lower() in self.consts:
            c = self.consts[e[1].lower()]
            if c[0] in ("real", "bool", "str"):
                return self.value(c, want)
            return self.value(("int", self.fold(c)))
        if k == "var" or k == "deref":
            p, t, ptr = self.place(e)
            if t.kind == "str":
                return (ptr, t)
            return (p, t)
        if k == "addr":
            p, t, ptr = self.place(e[1])
            return (f"StRef {{ p: {ptr} as *mut u8, room: {t.size()} }}", Ty("ref", "REF_TO", of=t))
        if k == "bit":
            v, t = self.value(e[1])
            if t.kind != "int" or e[2] >= t.w:
                raise Unsupported("bit access")
            return (f"((({v} as u64) >> {e[2]}) as u8 & 1)", self.ty(["BOOL"]))
        if k == "neg":
            v, t = self.value(e[1])
            c = self.common(t, D)
            v = self.cast(v, t, c)
            return (f"(-{v})" if c.kind == "float" else f"({v}).wrapping_neg()", c)
        if k == "not":
            v, t = self.value(e[1])
            if t.name == "BOOL":
                return (f"({v} ^ 1)", t)
            if t.kind == "int":
                return (f"(!{v})", t)
            raise Unsupported("NOT")
        if k == "bin":
            return self.binary(e)
        if k == "call":
            return self.call(e)
        raise Unsupported(k)

    def binary(self, e):
        _, op, a, b = e
        B = self.ty(["BOOL"])
        (x, tx) = self.value(a)
        (y, ty) = self.value(b)
        if tx.kind == "str" or ty.kind == "str":
            raise Unsupported("operator on strings")
        if op in ("AND", "OR", "XOR"):
            o = {"AND": "&", "OR": "|", "XOR": "^"}[op]
            if tx.name == ty.name == "BOOL":
                if op in ("AND", "OR"):  # short circuit
                    return (f"((({x}) != 0 {o}{o} ({y}) != 0) as u8)", B)
                return (f"({x} {o} {y})", B)
            c = self.common(tx, ty)
            return (f"({self.cast(x, tx, c)} {o} {self.cast(y, ty, c)})", c)
        c = self.common(tx, ty)
        if a[0] in ("int", "real"):
            x, tx = self.value(a, c)
        if b[0] in ("int", "real"):
            y, ty = self.value(b, c)
        x, y = self.cast(x, tx, c), self.cast(y, ty, c)
        if op in ("=", "<>", "<", ">", "<=", ">="):
            o = {"=": "==", "<>": "!="}.get(op, op)
            return (f"((({x}) {o} ({y})) as u8)", B)
        if op == "**":
            raise Unsupported("**")
        if c.kind == "float":
            return (f"({x} {'%' if op == 'MOD' else op} {y})", c)
        m = {"+": "add", "-": "sub", "*": "mul", "/": "div", "MOD": "rem"}[op]
        return (f"({x}).wrapping_{m}({y})", c)

    def call(self, e):
        _, name, args = e
        f = self.fns.get(name.upper())
        if not f and name.upper() in ("ADR", "REF", "MOVE", "SEL", "SIZEOF") and not any(n for n, _ in args):
            a = [v for _, v in args]
            if name.upper() in ("ADR", "REF") and len(a) == 1:
                return self.value(("addr", a[0]))
            if name.upper() == "MOVE" and len(a) == 1:
                return self.value(a[0])
            if name.upper() == "SIZEOF" and len(a) == 1:
                return self.value(("int", self.place(a[0])[1].size()), self.ty(["ULINT"]))
            if name.upper() == "SEL" and len(a) == 3:
                c, (x, tx), (y, ty) = self.cond(a[0]), self.value(a[1]), self.value(a[2])
                if tx.kind != "str" and ty.kind != "str":
                    t = tx if tx.name == ty.name else self.common(tx, ty)
                    x, y = self.value(a[1], t), self.value(a[2], t)
                    return (f"(if {c} {{ {self.cast(*y, t)} }} else {{ {self.cast(*x, t)} }})", t)
        if not f:
            raise Unsupported(f"call of {name}")
        if f.bad:
            raise Unsupported(f"call of {name}: {f.bad}")
        # arguments in the order of the parameters
        byname = {n.lower(): v for n, v in args if n}
        pos = [v for n, v in args if not n]
        if byname and pos:
            raise Unsupported("mixed arguments")
        variadic = any(p[4] for p in f.params)
        if byname:
            pos = []
            for p in f.params:
                if p[0].lower() not in byname:
                    raise Unsupported(f"missing argument {p[0]}")
                pos.append(byname[p[0].lower()])
        env, cname = {}, f.name
        if f.generics:
            ptys = [p[1][0].upper() for p in f.params]
            if variadic:
                j = [p[4] for p in f.params].index(True)
                ptys = ptys[:j] + [ptys[j]] * (len(pos) - len(ptys) + 1) + ptys[j + 1:]
            if len(ptys) != len(pos):
                raise Unsupported(f"{name}: number of arguments")
            keep = (list(self.out), self.tmp)
            for g in f.generics:
                best = None
                for p, a in zip(ptys, pos):
                    if p != g:
                        continue
                    t = self.value(a)[1]
                    if best is None or (t.kind == "float", t.w) > (best.kind == "float", best.w):
                        best = t
                if best is None:
                    raise Unsupported(f"{name}: generic {g}")
                env[g] = best
            self.out, self.tmp = keep
            cname = f.name + "".join("__" + env[g].name for g in f.generics)
            if cname.upper() in self.fns and not self.fns[cname.upper()].generics:
                f, env = self.fns[cname.upper()], {}
                cname = f.name
                variadic = any(p[4] for p in f.params)
            elif not f.external:
                raise Unsupported(f"{cname} has no body")
        params = f.params
        if not variadic and len(params) != len(pos):
            raise Unsupported(f"{name}: number of arguments")
        actual, sig = [], []
        i = 0
        for n, t, sec, ref, var in params:
            ty = self.ty(t, env)
            byref = sec != "VAR_INPUT" or ref
            el = f"u{ty.w}" if ty.kind == "str" else ty.rust()
            if var:
                cnt = len(pos) - len(params) + 1
                ptrs = []
                for a in pos[i:i + cnt]:
                    v, at = self.value(a)
                    if at.kind == "str" and ty.kind == "str" and at.w == ty.w:
                        ptrs.append(f"{v} as *const {el}")
                    else:
                        raise Unsupported("variadic scalars")
                self.tmp += 1
                self.emit(f"let t{self.tmp}: [*const {el}; {cnt}] = [{', '.join(ptrs)}];")
                actual += [f"{cnt}", f"t{self.tmp}.as_ptr()"]
                sig += ["i32", f"*const *const {el}"]
                i += cnt
                continue
            a = pos[i]
            i += 1
            if byref:
                if a[0] in ("var", "deref") and not (a[0] == "var" and a[1].lower() in self.consts and a[1].lower() not in self.vars):
                    _, at, ptr = self.place(a)
                    if at.kind != ty.kind or at.w != ty.w:
                        raise Unsupported(f"{name}: {at.name} passed for {ty.name} by reference")
                    actual.append(ptr)
                elif sec == "VAR_INPUT":
                    v, at = self.value(a)
                    if at.kind == "str":
                        if at.w != ty.w:
                            raise Unsupported("string kinds")
                        actual.append(v)
                    else:
                        self.tmp += 1
                        self.emit(f"let mut t{self.tmp}: {ty.rust()} = {self.cast(v, at, ty)};")
                        actual.append(f"core::ptr::addr_of_mut!(t{self.tmp})")
                else:
                    raise Unsupported(f"{name}: output argument is no variable")
                sig.append(f"*mut {el}")
            else:
                v, at = self.value(a, ty)
                if ty.kind == "str":
                    # by value: a copy that fits the parameter
                    self.tmp += 1
                    self.emit(f"let mut t{self.tmp}: {ty.rust()} = [0; {ty.n}];")
                    self.emit(f"core::ptr::copy_nonoverlapping({v}, t{self.tmp}.as_mut_ptr(), {min(at.n, ty.n) - (at.n > ty.n)});")
                    actual.append(f"t{self.tmp}" if not f.external else self.bad("string by value to an external function"))
                else:
                    actual.append(self.cast(v, at, ty))
                sig.append(ty.rust())
        ret = self.ty(f.ret, env) if f.ret else None
        if ret is not None and ret.kind == "str":
            self.tmp += 1
            t = f"t{self.tmp}"
            self.emit(f"let mut {t}: {ret.rust()} = [0; {ret.n}];")
            actual.append(f"{t}.as_mut_ptr()")
            sig.append(f"*mut u{ret.w}")
            if f.external:
                raise Unsupported("external function returning a string")
            self.emit(f"{f.name}({', '.join(actual)});")
            return (f"{t}.as_mut_ptr()", ret)
        if f.external:
            r = "()" if ret is None else ret.rust()
            old = self.externs.setdefault(cname, (tuple(sig), r))
            if old != (tuple(sig), r):
                raise Unsupported(f"{cname}: two signatures")
            # hand written code may return early with text results: evaluate once, in order
        elif self.fns[f.name.upper()].generics:
            raise Unsupported(f"{name} has no body")
        self.tmp += 1
        if ret is None:
            self.emit(f"{'ext::' if f.external else ''}{cname}({', '.join(actual)});")
            return ("()", Ty("void", "void"))
        self.emit(f"let t{self.tmp} = {'ext::' if f.external else ''}{cname}({', '.join(actual)});")
        return (f"t{self.tmp}", ret)

    def bad(self, s):
        raise Unsupported(s)

    def store(self, place, v, at):
        p, ty, ptr = self.place(place)
        if ty.kind == "str":
            if at.kind != "str" or at.w != ty.w:
                raise Unsupported(f"{at.name} assigned to {ty.name}")
            n = min(at.n, ty.n - 1)
            self.emit(f"core::ptr::copy({v} as *const u{ty.w}, {ptr}, {n});")
            if at.n > ty.n - 1:
                self.emit(f"*{ptr}.add({ty.n - 1}) = 0;")
            return
        if ty.kind == "ref":
            if at.kind != "ref":
                raise Unsupported("pointer assignment")
            self.emit(f"{p} = {v};")
            return
        self.emit(f"{p} = {self.cast(v, at, ty)};")

    def block(self, ss):
        self.ind += 1
        for s in ss:
            self.stmt(s)
        self.ind -= 1

    def cond(self, e):
        v, t = self.value(e)
        if t.name != "BOOL":
            raise Unsupported("condition of type " + t.name)
        return f"{v} != 0"

    def stmt(self, s):
        k = s[0]
        if k == "assign":
            want = self.place(s[1])[1]
            v, t = self.value(s[2], want)
            self.store(s[1], v, t)
        elif k == "eval":
            if s[1][0] not in ("call",):
                self.value(s[1])
                return
            self.value(s[1])
        elif k == "if":
            depth = 0
            for i, (c, b) in enumerate(s[1]):
                if i:
                    self.emit("} else {")
                    self.ind += 1
                    depth += 1
                self.emit(f"if {self.cond(c)} {{")
                self.block(b)
            if s[2]:
                self.emit("} else {")
                self.block(s[2])
            self.emit("}")
            for _ in range(depth):
                self.ind -= 1
                self.emit("}")
        elif k in ("while", "repeat", "for"):
            self.tmp += 1
            n, up = self.tmp, True
            if k == "for":
                step = self.fold(s[4])
                up = step >= 0
                self.stmt(("assign", s[1], s[2]))
            self.emit(f"'l{n}: loop {{")
            self.ind += 1
            if k == "while":
                self.emit(f"if !({self.cond(s[1])}) {{ break; }}")
            elif k == "for":
                self.emit(f"if {self.cond(('bin', '>' if up else '<', s[1], s[3]))} {{ break; }}")
            self.emit(f"'b{n}: {{")
            old, self.loop = self.loop, n
            self.block(s[{"while": 2, "repeat": 1, "for": 5}[k]])
            self.loop = old
            self.emit("}")
            if k == "repeat":
                self.emit(f"if {self.cond(s[2])} {{ break; }}")
            elif k == "for":
                self.stmt(("assign", s[1], ("bin", "+", s[1], ("int", step))))
            self.ind -= 1
            self.emit("}")
        elif k == "case":
            self.tmp += 1
            n = self.tmp
            v, t = self.value(s[1])
            self.emit(f"let c{n} = {v};")
            self.vars[f"$c{n}"] = (f"c{n}", t, False)
            arms = []
            for labels, b in s[2]:
                c = None
                for l in labels:
                    x = ("bin", "=", ("var", f"$c{n}"), l)
                    c = x if c is None else ("bin", "OR", c, x)
                arms.append((c, b))
            self.stmt(("if", arms, s[3]) if arms else ("if", [(("bool", 0), [])], s[3]))
        elif k == "return":
            self.emit("return ret;" if self.ret and self.ret.kind != "str" else "return;")
        elif k == "exit":
            self.emit(f"break 'l{self.loop};")
        elif k == "continue":
            self.emit(f"break 'b{self.loop};")
        else:
            raise Unsupported(k)

    def instance(self, f):
        """a function block: its instance data, in the order of declaration, and the Rust function it is"""
        if not f.external or f.generics:
            raise Unsupported("function block with a body")
        out = [f"#[repr(C)]\n#[derive(Clone, Copy)]\npub struct {f.name} {{\n"]
        for n, ty, sec, init in f.members:
            if sec not in ("VAR_INPUT", "VAR_OUTPUT", "VAR") or init is not None:
                raise Unsupported(f"{sec} {n} in a function block")
            if ty[0].upper() == "ARRAY":
                b = [int(x) for x in ty[1] if x.isdigit()]
                if len(b) != 2 or "".join(ty[1]) != f"{b[0]}..{b[1]}":
                    raise Unsupported(f"bounds of {n}")
                r = f"[{self.ty(ty[2]).rust()}; {b[1] - b[0] + 1}]"
            else:
                r = self.ty(ty).rust()
            out.append(f"    pub v_{n}: {r},\n")
        out.append("}\n")
        self.externs[f.name] = ([f"*mut super::{f.name}"], "()")
        return "".join(out)

    def module(self, room):
        out = ["// generated by stgen.py from iec61131-st/*.st\n#![allow(non_snake_case, unreachable_code, unused_mut, unused_variables, unused_assignments, unused_unsafe, unused_parens, unused_labels, dead_code, clippy::all)]\n",
               "#[derive(Clone, Copy)]\npub struct StRef { p: *mut u8, room: usize }\nimpl StRef {\n    pub const fn null() -> StRef { StRef { p: core::ptr::null_mut(), room: 0 } }\n    pub fn at(&self, n: usize) -> *mut u8 {\n        if n > self.room { panic!(\"access beyond the variable pointed at\"); }\n        self.p\n    }\n}\n", room]
        bad, done = [], 0
        for f in self.order:
            if f.block:
                try:
                    out.append(self.instance(f))
                    done += 1
                except Unsupported as e:
                    bad.append((f.name, str(e)))
                continue
            missing = f.external and f.body and self.rust is not None and not re.search(rf"\b{f.name}\b", self.rust)
            if f.external and not missing or f.generics:
                continue
            try:
                if missing:
                    f.body = []
                if f.bad:
                    raise Unsupported(f.bad)
                text = self.function(f)
                if missing:
                    text = text.replace("{\n", f'{{\n    panic!("{f.name} is declared external but nothing provides it");\n', 1)
                out.append(text)
                done += 1
            except Unsupported as e:
                bad.append((f.name, str(e)))
                out.append(f"// {f.name}: {e}\n")
        ex = ["pub mod ext {\n    extern \"C\" {\n"]
        for n, (sig, r) in sorted(self.externs.items()):
            ps = ", ".join(f"a{i}: {s}" for i, s in enumerate(sig))
            ex.append(f"        pub fn {n}({ps}){'' if r == '()' else ' -> ' + r};\n")
        ex.append("    }\n}\n")
        ln = "/// elements of the texts that functions return\npub mod len {\n    #![allow(non_upper_case_globals)]\n" + "".join(f"    pub const {n}: usize = {k};\n" for n, k in self.lens) + "}\n"
        return "".join(out) + "".join(ex) + ln, done, bad


ROOM = "unsafe fn room(n: usize) -> *mut u8 {\n    vec![0u64; (n + 7) / 8].leak().as_mut_ptr() as *mut u8\n}\n"


def generate(d, room=ROOM):
    """room: Rust function that gives n bytes to a local text variable"""
    files = [(p, open(p, encoding="utf-8").read()) for p in sorted(glob.glob(os.path.join(d, "*.st")))]
    rust = "".join(open(p, encoding="utf-8").read() for p in glob.glob(os.path.join(d, "../src/*.rs")))
    return Gen(files, rust or None).module(room)


if __name__ == "__main__":
    text, done, bad = generate(sys.argv[1])
    if "-o" in sys.argv:
        open(sys.argv[sys.argv.index("-o") + 1], "w").write(text)
    print(f"{done} functions translated", file=sys.stderr)
    for n, e in bad:
        print(f"not translated: {n}: {e}", file=sys.stderr)
