"""Parser for the textual LLVM IR (LLVM 18, opaque pointers) that clang produces from /repo's headers.

Nothing is rewritten here: every instruction of every function is turned into a small python object
that the verifier (vcg.py) interprets.  An instruction or constant the parser does not know raises
IRError, which the checks report as an error (never as a pass)."""
import re


class IRError(Exception):
    pass


# ---------------------------------------------------------------- types
class Ty:
    __slots__ = ("k", "n", "elem", "fields", "packed", "size", "align", "offs")

    def __init__(self, k, n=0, elem=None, fields=None, packed=False):
        self.k = k            # int ptr void array struct vec float label
        self.n = n
        self.elem = elem
        self.fields = fields
        self.packed = packed
        self.size = None
        self.align = None
        self.offs = None

    def __repr__(self):
        if self.k == "int":
            return f"i{self.n}"
        if self.k == "array":
            return f"[{self.n} x {self.elem}]"
        if self.k == "struct":
            return "{" + ",".join(map(repr, self.fields)) + "}"
        return self.k


I = {}


def int_ty(n):
    t = I.get(n)
    if t is None:
        t = I[n] = Ty("int", n)
    return t


PTR = Ty("ptr")
VOID = Ty("void")
LABEL = Ty("label")
META = Ty("metadata")


def align_up(x, a):
    return (x + a - 1) // a * a


def layout(t):
    if t.size is not None:
        return t
    if t.k == "int":
        b = (t.n + 7) // 8
        s = 1
        while s < b:
            s *= 2
        t.size = s
        t.align = min(s, 16)
    elif t.k == "ptr":
        t.size = t.align = 8
    elif t.k == "float":
        t.size = t.align = t.n // 8
    elif t.k == "array":
        layout(t.elem)
        t.size = t.n * t.elem.size
        t.align = t.elem.align
    elif t.k == "vec":
        layout(t.elem)
        t.size = t.n * t.elem.size
        t.align = t.size
    elif t.k == "struct":
        off = 0
        al = 1
        offs = []
        for f in t.fields:
            layout(f)
            if not t.packed:
                off = align_up(off, f.align)
                al = max(al, f.align)
            offs.append(off)
            off += f.size
        t.offs = offs
        t.size = align_up(off, al)
        t.align = al
    else:
        raise IRError(f"no layout for {t.k}")
    return t


# ---------------------------------------------------------------- operands
class Op:
    __slots__ = ("k", "v", "ty")

    def __init__(self, k, v, ty):
        self.k = k    # reg int null undef global cexpr agg zero str
        self.v = v
        self.ty = ty

    def __repr__(self):
        return f"{self.k}:{self.v}"


class Inst:
    __slots__ = ("op", "res", "ty", "a", "x", "dbg", "idx")

    def __init__(self, op, res=None, ty=None, a=None, x=None):
        self.op = op
        self.res = res
        self.ty = ty
        self.a = a
        self.x = x
        self.dbg = None

    def __repr__(self):
        return f"{self.res}={self.op} {self.a} {self.x}"


class Block:
    __slots__ = ("name", "insts", "phis", "succ", "preds")

    def __init__(self, name):
        self.name = name
        self.insts = []
        self.phis = []
        self.succ = []
        self.preds = []


class Func:
    def __init__(self, name, rty, params):
        self.name = name
        self.rty = rty
        self.params = params
        self.blocks = {}
        self.order = []
        self.entry = None
        self.loops = None
        self.byval = {}


TOK = re.compile(r"""
   (?P<ws>\s+)
 | (?P<str>c?"(?:[^"\\]|\\.)*")
 | (?P<loc>%(?:"(?:[^"\\]|\\.)*"|[-a-zA-Z$._0-9]+))
 | (?P<glob>@(?:"(?:[^"\\]|\\.)*"|[-a-zA-Z$._0-9]+))
 | (?P<meta>!(?:"(?:[^"\\]|\\.)*"|[-a-zA-Z$._0-9]*))
 | (?P<attr>\#[0-9]+)
 | (?P<num>-?[0-9]+(?:\.[0-9]+(?:e[+-]?[0-9]+)?)?|0x[0-9A-Fa-f]+)
 | (?P<id>[a-zA-Z$._][-a-zA-Z$._0-9]*)
 | (?P<dots>\.\.\.)
 | (?P<p>[][(){}<>,=*:|])
""", re.X)


def tokenize(s):
    out = []
    pos = 0
    n = len(s)
    while pos < n:
        m = TOK.match(s, pos)
        if not m:
            if s[pos] == ';':
                break
            raise IRError("tokenize: " + s[pos:pos + 40])
        pos = m.end()
        k = m.lastgroup
        if k != "ws":
            out.append((k, m.group()))
    return out


CASTS = {"trunc", "zext", "sext", "ptrtoint", "inttoptr", "bitcast", "fptoui", "uitofp", "sitofp",
         "fptosi", "fptrunc", "fpext", "addrspacecast"}
BINOPS = {"add", "sub", "mul", "udiv", "sdiv", "urem", "srem", "and", "or", "xor", "shl", "lshr",
          "ashr"}
FLAGS = {"nsw", "nuw", "exact", "inbounds", "disjoint", "nneg", "inrange"}
PATTRS = {"noundef", "nonnull", "zeroext", "signext", "nocapture", "readonly", "readnone", "writeonly",
          "returned", "noalias", "immarg", "noinline", "inreg", "swiftself", "nofree", "nest", "writable",
          "dead_on_unwind", "allocalign", "allocptr", "noext"}


class P:
    def __init__(self, mod, toks, fn=None):
        self.m = mod
        self.t = toks
        self.i = 0
        self.fn = fn

    def peek(self, k=0):
        j = self.i + k
        return self.t[j][1] if j < len(self.t) else None

    def kind(self):
        return self.t[self.i][0] if self.i < len(self.t) else None

    def next(self):
        v = self.t[self.i][1]
        self.i += 1
        return v

    def eat(self, s):
        if self.peek() == s:
            self.i += 1
            return True
        return False

    def expect(self, s):
        if not self.eat(s):
            raise IRError(f"expected {s!r} at {[x[1] for x in self.t[max(0,self.i-6):self.i+6]]}")

    def skip_parens(self):
        self.expect("(")
        d = 1
        while d:
            t = self.next()
            if t == "(":
                d += 1
            elif t == ")":
                d -= 1

    # types
    def type(self):
        t = self.next()
        if t == "{" or (t == "<" and self.peek() == "{"):
            packed = t == "<"
            if packed:
                self.next()
            fs = []
            while not self.eat("}"):
                fs.append(self.type())
                self.eat(",")
            if packed:
                self.expect(">")
            r = Ty("struct", fields=fs, packed=packed)
        elif t == "[":
            n = int(self.next())
            self.expect("x")
            e = self.type()
            self.expect("]")
            r = Ty("array", n, e)
        elif t == "<":
            n = int(self.next())
            self.expect("x")
            e = self.type()
            self.expect(">")
            r = Ty("vec", n, e)
        elif t[0] == "%":
            r = self.m.named_type(t)
        elif t == "ptr":
            r = PTR
        elif t == "void":
            r = VOID
        elif t == "label":
            r = LABEL
        elif t == "metadata":
            r = META
        elif t == "float":
            r = Ty("float", 32)
        elif t == "double":
            r = Ty("float", 64)
        elif t == "x86_fp80":
            r = Ty("float", 128)
        elif re.fullmatch(r"i[0-9]+", t):
            r = int_ty(int(t[1:]))
        else:
            raise IRError("type " + t)
        # function type  T (args)   - only in varargs call position
        return r

    def attrs(self):
        res = {}
        while True:
            p = self.peek()
            if p in PATTRS:
                self.next()
            elif p == "align":
                self.next()
                if self.peek() == "(":
                    self.skip_parens()
                else:
                    self.next()
            elif p in ("dereferenceable", "dereferenceable_or_null", "captures", "range", "initializes", "nofpclass"):
                self.next()
                self.skip_parens()
            elif p in ("sret", "byval", "elementtype", "byref", "preallocated", "inalloca"):
                self.next()
                self.expect("(")
                ty = self.type()
                self.expect(")")
                res[p] = ty
            else:
                return res

    def value(self, ty):
        k = self.kind()
        t = self.next()
        if k == "loc":
            return Op("reg", t, ty)
        if k == "num":
            if ty.k == "int":
                return Op("int", int(t, 0) & ((1 << ty.n) - 1), ty)
            return Op("undef", None, ty)   # floats are not interpreted
        if k == "glob":
            return Op("global", t, ty)
        if t == "true":
            return Op("int", 1, ty)
        if t == "false":
            return Op("int", 0, ty)
        if t == "null":
            return Op("null", None, ty)
        if t in ("undef", "poison"):
            return Op("undef", None, ty)
        if t == "zeroinitializer":
            return Op("zero", None, ty)
        if k == "str" and t[0] == "c":
            return Op("str", unescape(t[2:-1]), ty)
        if t in ("{", "[") or (t == "<"):
            if t == "<" and self.peek() == "{":
                self.next()
                close = "}"
            else:
                close = {"{": "}", "[": "]", "<": ">"}[t]
            vals = []
            while not self.eat(close):
                et = self.type()
                vals.append(self.value(et))
                self.eat(",")
            if t == "<" and close == "}":
                self.expect(">")
            return Op("agg", vals, ty)
        if t == "getelementptr":
            while self.peek() in FLAGS:
                f = self.next()
                if f == "inrange" and self.peek() == "(":
                    self.skip_parens()
            self.expect("(")
            bt = self.type()
            self.expect(",")
            args = []
            while True:
                self.eat("inrange")
                at = self.type()
                args.append(self.value(at))
                if not self.eat(","):
                    break
            self.expect(")")
            return Op("cexpr", ("gep", bt, args), ty)
        if t in CASTS:
            self.expect("(")
            at = self.type()
            v = self.value(at)
            self.expect("to")
            dt = self.type()
            self.expect(")")
            return Op("cexpr", ("cast", t, v, dt), ty)
        if t in BINOPS:
            while self.peek() in FLAGS:
                self.next()
            self.expect("(")
            at = self.type()
            a = self.value(at)
            self.expect(",")
            bt = self.type()
            b = self.value(bt)
            self.expect(")")
            return Op("cexpr", ("bin", t, a, b), ty)
        if t == "icmp":
            pr = self.next()
            self.expect("(")
            at = self.type()
            a = self.value(at)
            self.expect(",")
            bt = self.type()
            b = self.value(bt)
            self.expect(")")
            return Op("cexpr", ("icmp", pr, a, b), ty)
        if k == "meta":
            # metadata operand: skip
            while self.peek() not in (",", ")", None):
                self.next()
            return Op("undef", None, ty)
        if k == "id" and ty.k == "float":
            return Op("undef", None, ty)
        raise IRError("value " + t)

    def tv(self):
        ty = self.type()
        self.attrs()
        if ty.k == "metadata":
            d = 0
            while True:
                p = self.peek()
                if p is None or (d == 0 and p in (",", ")")):
                    break
                if p in ("(", "{"):
                    d += 1
                if p in (")", "}"):
                    d -= 1
                self.next()
            return Op("undef", None, ty)
        return self.value(ty)


def unescape(s):
    out = bytearray()
    i = 0
    while i < len(s):
        if s[i] == "\\":
            out.append(int(s[i + 1:i + 3], 16))
            i += 3
        else:
            out += s[i].encode("utf-8")
            i += 1
    return bytes(out)


class Module:
    def __init__(self, text):
        self.types = {}
        self.typedefs = {}
        self.globals = {}      # name -> (ty, init Op or None, const)
        self.gtext = {}
        self.funcs = {}
        self.ftext = {}
        self.decls = set()
        self.md = {}
        self._scan(text)

    def named_type(self, name):
        t = self.types.get(name)
        if t is None:
            t = self.types[name] = Ty("struct", fields=None)
            d = self.typedefs.get(name)
            if d is None or d.strip() == "opaque":
                t.fields = []
            else:
                p = P(self, tokenize(d))
                b = p.type()
                if b.k == "struct":
                    t.fields = b.fields
                    t.packed = b.packed
                else:
                    raise IRError("named type " + name)
        return t

    def _scan(self, text):
        lines = text.split("\n")
        i = 0
        while i < len(lines):
            ln = lines[i]
            if ln.startswith("%"):
                nm, d = re.match(r'(%(?:"[^"]*"|[-\w$.]+)) = type (.*)$', ln).groups()
                self.typedefs[nm] = d
            elif ln.startswith("@"):
                m = re.match(r'(@(?:"[^"]*"|[-\w$.]+)) = (.*)$', ln)
                self.gtext[m.group(1)] = m.group(2)
            elif ln.startswith("define"):
                body = [ln]
                i += 1
                while lines[i] != "}":
                    body.append(lines[i])
                    i += 1
                nm = re.search(r'(@(?:"[^"]*"|[-\w$.]+))\(', ln).group(1)
                self.ftext[nm] = body
            elif ln.startswith("declare"):
                nm = re.search(r'(@(?:"[^"]*"|[-\w$.]+))\(', ln)
                if nm:
                    self.decls.add(nm.group(1))
            elif ln.startswith("!"):
                m = re.match(r'(!\d+) = (.*)$', ln)
                if m:
                    self.md[m.group(1)] = m.group(2)
            i += 1

    def glob(self, name):
        g = self.globals.get(name)
        if g is None:
            txt = self.gtext.get(name)
            if txt is None:
                return None
            toks = tokenize(txt)
            p = P(self, toks)
            const = False
            alias = False
            while True:
                t = p.peek()
                if t in ("global", "constant"):
                    const = t == "constant"
                    p.next()
                    break
                if t == "alias":
                    alias = True
                    p.next()
                    break
                p.next()
                if t in ("thread_local", "addrspace") and p.peek() == "(":
                    p.skip_parens()
            ty = p.type()
            if alias:
                p.expect(",")
                tgt = p.tv()
                g = ("alias", tgt, False)
            else:
                init = None
                if p.peek() is not None and p.peek() != "," and "external" not in [x[1] for x in toks[:4]]:
                    init = p.value(ty)
                g = (ty, init, const)
            self.globals[name] = g
        return g

    def func(self, name):
        f = self.funcs.get(name)
        if f is None:
            body = self.ftext.get(name)
            if body is None:
                return None
            f = self.funcs[name] = self._parse_func(name, body)
        return f

    def _parse_func(self, name, body):
        hdr = body[0]
        p = P(self, tokenize(hdr[:hdr.rindex("{")]))
        p.expect("define")
        while True:
            t = p.peek()
            if t in ("linkonce_odr", "dso_local", "internal", "private", "weak_odr", "hidden", "available_externally",
                     "weak", "linkonce", "external", "unnamed_addr", "local_unnamed_addr", "fastcc", "ccc", "coldcc",
                     "comdat", "protected"):
                p.next()
                continue
            j = p.i
            p.attrs()
            if p.i == j:
                break
        rty = p.type()
        p.next()  # name
        p.expect("(")
        params = []
        byval = {}
        nreg = 0
        while not p.eat(")"):
            if p.eat("..."):
                continue
            ty = p.type()
            a = p.attrs()
            if p.kind() == "loc":
                nm = p.next()
            else:
                nm = "%" + str(nreg)
            if re.fullmatch(r"%\d+", nm):
                nreg = int(nm[1:]) + 1
            if "byval" in a:
                byval[len(params)] = a["byval"]
            params.append((nm, ty))
            p.eat(",")
        f = Func(name, rty, params)
        f.byval = byval
        cur = None
        i = 1
        while i < len(body):
            ln = body[i]
            i += 1
            s = ln.strip()
            if not s or s.startswith(";"):
                continue
            if not ln.startswith(" "):
                m = re.match(r'("(?:[^"]*)"|[-\w$.]+):', ln)
                if not m:
                    raise IRError("label " + ln)
                cur = Block("%" + m.group(1))
                f.blocks[cur.name] = cur
                f.order.append(cur.name)
                continue
            if cur is None:
                cur = Block("%" + str(nreg))
                f.blocks[cur.name] = cur
                f.order.append(cur.name)
            if s.startswith("switch") and s.endswith("["):
                while True:
                    s += " " + body[i].strip()
                    i += 1
                    if body[i - 1].strip().startswith("]"):
                        break
            # strip trailing metadata
            dbg = None
            m = re.search(r", !dbg (!\d+)", s)
            if m:
                dbg = m.group(1)
            inst = self._parse_inst(s, f)
            if inst is None:
                continue
            inst.dbg = dbg
            if inst.op == "phi":
                cur.phis.append(inst)
            else:
                cur.insts.append(inst)
        f.entry = f.order[0]
        for b in f.blocks.values():
            t = b.insts[-1]
            if t.op == "br":
                b.succ = list(dict.fromkeys(t.x))
            elif t.op == "switch":
                b.succ = list(dict.fromkeys([t.x[0]] + [l for _, l in t.x[1]]))
            elif t.op == "invoke":
                b.succ = [t.x["normal"]]
        for b in f.blocks.values():
            for s_ in b.succ:
                f.blocks[s_].preds.append(b.name)
        find_loops(f)
        return f

    def _parse_inst(self, s, f):
        toks = tokenize(s)
        p = P(self, toks, f)
        res = None
        if p.kind() == "loc" and p.peek(1) == "=":
            res = p.next()
            p.next()
        op = p.next()
        while op in ("tail", "musttail", "notail"):
            op = p.next()
        if op == "alloca":
            p.eat("inalloca")
            ty = p.type()
            n = None
            if p.peek() == "," and p.peek(1) not in ("align",) and p.peek(1) and p.peek(1)[0] == "i":
                p.next()
                n = p.tv()
            return Inst("alloca", res, ty, n)
        if op == "load":
            p.eat("volatile")
            p.eat("atomic")
            ty = p.type()
            p.expect(",")
            return Inst("load", res, ty, p.tv())
        if op == "store":
            p.eat("volatile")
            p.eat("atomic")
            v = p.tv()
            p.expect(",")
            return Inst("store", None, v.ty, (v, p.tv()))
        if op == "getelementptr":
            fl = set()
            while p.peek() in FLAGS:
                fl.add(p.next())
            bt = p.type()
            p.expect(",")
            args = [p.tv()]
            while p.eat(","):
                if p.peek() and p.peek()[0] == "!":
                    break
                args.append(p.tv())
            return Inst("gep", res, bt, args, fl)
        if op in BINOPS:
            fl = set()
            while p.peek() in FLAGS:
                fl.add(p.next())
            ty = p.type()
            a = p.value(ty)
            p.expect(",")
            b = p.value(ty)
            return Inst(op, res, ty, (a, b), fl)
        if op == "icmp":
            if p.peek() == "samesign":
                p.next()
            pr = p.next()
            ty = p.type()
            a = p.value(ty)
            p.expect(",")
            b = p.value(ty)
            return Inst("icmp", res, ty, (a, b), pr)
        if op in CASTS:
            while p.peek() in FLAGS:
                p.next()
            a = p.tv()
            p.expect("to")
            dt = p.type()
            return Inst("cast", res, dt, a, op)
        if op == "freeze":
            return Inst("freeze", res, None, p.tv())
        if op == "select":
            c = p.tv()
            p.expect(",")
            a = p.tv()
            p.expect(",")
            b = p.tv()
            return Inst("select", res, a.ty, (c, a, b))
        if op == "phi":
            ty = p.type()
            inc = []
            while True:
                p.expect("[")
                v = p.value(ty)
                p.expect(",")
                l = p.next()
                p.expect("]")
                inc.append((v, l))
                if not p.eat(","):
                    break
                if p.peek() and p.peek()[0] == "!":
                    break
            return Inst("phi", res, ty, dict((l, v) for v, l in inc))
        if op == "br":
            if p.eat("label"):
                return Inst("br", None, None, None, [p.next()])
            c = p.tv()
            p.expect(",")
            p.expect("label")
            t = p.next()
            p.expect(",")
            p.expect("label")
            e = p.next()
            return Inst("br", None, None, c, [t, e])
        if op == "switch":
            v = p.tv()
            p.expect(",")
            p.expect("label")
            d = p.next()
            p.expect("[")
            cs = []
            while not p.eat("]"):
                c = p.tv()
                p.expect(",")
                p.expect("label")
                cs.append((c.v, p.next()))
            return Inst("switch", None, None, v, (d, cs))
        if op == "ret":
            if p.peek() == "void":
                return Inst("ret", None, None, None)
            return Inst("ret", None, None, p.tv())
        if op == "unreachable":
            return Inst("unreachable")
        if op in ("call", "invoke"):
            while True:
                t = p.peek()
                if t in ("fastcc", "ccc", "coldcc", "fast", "nnan", "ninf", "nsz"):
                    p.next()
                    continue
                j = p.i
                p.attrs()
                if p.i == j:
                    break
            rty = p.type()
            if p.peek() == "(":   # vararg function type
                p.skip_parens()
            k = p.kind()
            callee = p.next()
            if callee == "asm":
                raise IRError("inline asm")
            p.expect("(")
            args = []
            while not p.eat(")"):
                ty = p.type()
                at = p.attrs()
                if ty.k == "metadata":
                    d = 0
                    while not (d == 0 and p.peek() in (",", ")")):
                        x = p.next()
                        if x == "(":
                            d += 1
                        elif x == ")":
                            d -= 1
                    args.append(Op("undef", None, ty))
                else:
                    args.append(p.value(ty))
                p.eat(",")
            if callee.startswith("@llvm.dbg") or callee.startswith("@llvm.lifetime") or \
               callee.startswith("@llvm.experimental.noalias") or callee.startswith("@llvm.assume"):
                return None
            x = {"callee": callee if k == "glob" else Op("reg", callee, PTR)}
            if op == "invoke":
                while p.peek() != "to":
                    p.next()
                p.next()
                p.expect("label")
                x["normal"] = p.next()
            return Inst(op, res, rty, args, x)
        if op == "extractvalue":
            a = p.tv()
            idx = []
            while p.eat(","):
                if p.peek()[0] == "!":
                    break
                idx.append(int(p.next()))
            return Inst("extractvalue", res, None, a, idx)
        if op == "insertvalue":
            a = p.tv()
            p.expect(",")
            b = p.tv()
            idx = []
            while p.eat(","):
                if p.peek()[0] == "!":
                    break
                idx.append(int(p.next()))
            return Inst("insertvalue", res, a.ty, (a, b), idx)
        if op in ("landingpad", "resume", "cleanup"):
            return Inst("unreachable")
        raise IRError("instruction " + s)


# ---------------------------------------------------------------- natural loops
class Loop:
    __slots__ = ("header", "blocks", "latches", "fn")


def find_loops(f):
    # dominators (iterative)
    order = []
    seen = set()

    def dfs(start):
        stack = [(start, iter(f.blocks[start].succ))]
        seen.add(start)
        while stack:
            n, it = stack[-1]
            for s in it:
                if s not in seen:
                    seen.add(s)
                    stack.append((s, iter(f.blocks[s].succ)))
                    break
            else:
                order.append(n)
                stack.pop()
    dfs(f.entry)
    rpo = order[::-1]
    num = {b: i for i, b in enumerate(rpo)}
    idom = {f.entry: f.entry}
    changed = True
    while changed:
        changed = False
        for b in rpo:
            if b == f.entry:
                continue
            new = None
            for p in f.blocks[b].preds:
                if p in idom:
                    if new is None:
                        new = p
                    else:
                        x, y = p, new
                        while x != y:
                            while num[x] > num[y]:
                                x = idom[x]
                            while num[y] > num[x]:
                                y = idom[y]
                        new = x
            if idom.get(b) != new:
                idom[b] = new
                changed = True

    def dom(a, b):
        while True:
            if a == b:
                return True
            if b == f.entry:
                return False
            b = idom[b]
    loops = {}
    for b in rpo:
        for s in f.blocks[b].succ:
            if dom(s, b):
                l = loops.get(s)
                if l is None:
                    l = loops[s] = Loop()
                    l.header = s
                    l.blocks = {s}
                    l.latches = set()
                    l.fn = f
                l.latches.add(b)
                work = [b]
                while work:
                    x = work.pop()
                    if x not in l.blocks:
                        l.blocks.add(x)
                        work.extend(p for p in f.blocks[x].preds if p in num)
            elif num[s] <= num[b]:
                raise IRError("irreducible control flow in " + f.name)
    f.loops = loops
