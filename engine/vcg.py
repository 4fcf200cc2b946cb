"""Deductive verifier for LLVM IR.

A verification unit is an extern "C" function `vu_*` of a contract file (contracts/*.cpp).  It states
requires (vc_assume) and ensures (vc_assert) around calls into the real lexy templates that clang
instantiated from /repo's headers.  This module generates and discharges, function by function and
path by path, one SMT query per obligation (z3, QF_AUFBV):

  * every vc_assert                                  (ensures / ghost-protocol clauses)
  * every reachable LEXY_ASSERT / LEXY_PRECONDITION  (__assert_fail)
  * every load/store in bounds of a live object      (memory)
  * no signed overflow, no division by zero, shift in range (undefined)
  * no reachable `unreachable`
  * loops: inductive invariants.  Entry establishes, body preserves; the loop is then left with the
    invariant only (everything the body may modify is havocked).  Invariants are found by Houdini from
    templates over the variables the loop modifies plus the predicates the contract supplies
    (vc_use_inv*); a template that is not inductive is dropped, so no annotation on /repo's source is
    needed and a loop may be rewritten freely as long as the property is still provable.

No loop is unrolled unless `bmc` is set, which is used only to search for a concrete counterexample
after a proof has failed."""
import sys, time, itertools, re
import os
import subprocess
import z3
from ir import (Module, IRError, Op, Inst, layout, int_ty, Ty, PTR)

sys.setrecursionlimit(20000)


class Unsupported(Exception):
    pass


class Timeout(Exception):
    pass


class Restart(Exception):
    """verify again, treating more signed operations as speculated (see nsw)"""


U64 = (1 << 64) - 1


class Ptr:
    __slots__ = ("obj", "off")

    def __init__(self, obj, off):
        self.obj = obj
        self.off = off

    def __repr__(self):
        return f"&{self.obj}+{self.off}"


NULL = Ptr(0, 0)


class FnPtr:
    __slots__ = ("name",)

    def __init__(self, name):
        self.name = name


class _Undef:
    def __repr__(self):
        return "undef"


UNDEF = _Undef()


def is_c(x):
    return isinstance(x, int)


_bv = {}


def bv(x, w):
    if isinstance(x, int):
        k = (x, w)
        r = _bv.get(k)
        if r is None:
            r = _bv[k] = z3.BitVecVal(x, w)
        return r
    if isinstance(x, z3.BoolRef):
        return z3.If(x, bv(1, w), bv(0, w))
    return x


def bl(x):
    if isinstance(x, int):
        return z3.BoolVal(bool(x))
    return x


def as_bool(x):
    """0, 1 or ite(c, 1, 0) as a truth value, else None"""
    if is_c(x):
        return x if x in (0, 1) else None
    if isinstance(x, z3.BoolRef):
        return x
    if z3.is_app_of(x, z3.Z3_OP_ITE) and z3.is_bv_value(x.arg(1)) and z3.is_bv_value(x.arg(2)):
        p, q = x.arg(1).as_long(), x.arg(2).as_long()
        if (p, q) == (1, 0):
            return x.arg(0)
        if (p, q) == (0, 1):
            return z3.Not(x.arg(0))
    return None


def sgn(x, w):
    return x - (1 << w) if x >> (w - 1) else x


def mask(w):
    return (1 << w) - 1


class Obj:
    __slots__ = ("id", "name", "size", "cells", "arr", "const", "alive", "owner", "heap", "align")

    def __init__(self, id, name, size):
        self.id = id
        self.name = name
        self.size = size
        self.cells = {}
        self.arr = None
        self.const = False
        self.alive = True
        self.owner = None
        self.heap = False
        self.align = 1

    def clone(self, owner):
        o = Obj.__new__(Obj)
        o.id = self.id
        o.name = self.name
        o.size = self.size
        o.cells = dict(self.cells)
        o.arr = self.arr
        o.const = self.const
        o.alive = self.alive
        o.owner = owner
        o.heap = self.heap
        o.align = self.align
        return o


class Frame:
    __slots__ = ("fn", "block", "ip", "regs", "prev", "res", "act", "allocas", "counts")

    def clone(self):
        f = Frame()
        f.fn = self.fn
        f.block = self.block
        f.ip = self.ip
        f.regs = dict(self.regs)
        f.prev = self.prev
        f.res = self.res
        f.act = self.act
        f.allocas = list(self.allocas)
        f.counts = dict(self.counts) if self.counts else None
        return f


class State:
    _n = itertools.count()

    def __init__(self):
        self.id = next(State._n)
        self.frames = []
        self.mem = {}
        self.pc = None          # linked list (prev, cond, depth)
        self.model = None
        self.trace = []         # nondet trace
        self.path = 0
        self.invs = ()
        self.ghosts = frozenset()
        self.tracked = ()
        self.axioms = {}        # object id -> tuple of (key, elem size, fn(state, idx) -> Bool)
        self.inst = frozenset()
        self.ended = None
        self.facts = {}         # id of a simplified atom -> (atom, truth value); shared, copied on write
        self.modular = False    # went through a havocked loop: model is not a concrete run
        self.poison = ()        # (const, no-overflow condition, inst) of speculated signed operations

    def fork(self):
        s = State.__new__(State)
        s.id = next(State._n)
        s.frames = [f.clone() for f in self.frames]
        s.mem = dict(self.mem)
        s.pc = self.pc
        s.model = self.model
        s.trace = list(self.trace)
        s.path = self.path
        s.invs = self.invs
        s.ghosts = self.ghosts
        s.tracked = self.tracked
        s.axioms = self.axioms
        s.inst = self.inst
        s.ended = None
        s.modular = self.modular
        s.facts = self.facts
        s.poison = self.poison
        self.id = next(State._n)     # objects owned so far are now shared: copy on write on both sides
        return s

    def assume(self, c):
        if is_c(c):
            if not c:
                c = z3.BoolVal(False)
            else:
                return
        d = self.pc[2] + 1 if self.pc else 1
        self.pc = (self.pc, c, d)
        new = {}
        atoms(z3.simplify(c), True, new)
        if new:
            facts = {**self.facts, **new}
            for a, pol in list(new.values()):
                for lem in (() if os.environ.get("NOLIN") else linear(a, pol, facts)):
                    self.pc = (self.pc, lem, self.pc[2] + 1)
            self.facts = facts

    def known(self, c):
        """truth value of c if it follows syntactically from the path condition, else None"""
        c = z3.simplify(c)
        return truth(c, self.facts)


def atoms(c, pol, out, depth=0):
    k = c.decl().kind()
    if k == z3.Z3_OP_NOT:
        return atoms(c.arg(0), not pol, out, depth + 1)
    if (k == z3.Z3_OP_AND and pol) or (k == z3.Z3_OP_OR and not pol):
        if depth < 6:
            for i in range(c.num_args()):
                atoms(c.arg(i), pol, out, depth + 1)
    out[c.get_id()] = (c, pol)


def linpart(t):
    """64-bit term -> (id of the base, constant, base)"""
    if z3.is_bv_value(t):
        return 0, t.as_long(), None
    if t.decl().kind() == z3.Z3_OP_BADD and t.num_args() == 2 and z3.is_bv_value(t.arg(0)):
        return t.arg(1).get_id(), t.arg(0).as_long(), t.arg(1)
    return t.get_id(), 0, t


def linear(a, pol, facts):
    """x <= t and x != t give x + 1 <= t (no wrap since x < t): lemmas the bit-vector solver finds slowly"""
    k = a.decl().kind()
    out = []

    def le(x, xa, t, tb):
        while ("le", x[0], xa, t[0], tb) not in facts or not facts[("le", x[0], xa, t[0], tb)]:
            facts[("le", x[0], xa, t[0], tb)] = True
            d = (tb - xa) & U64
            if ("ne", x[0], t[0], d) not in facts:
                break
            xa = (xa + 1) & U64
            l = z3.ULE(mklin(x[2], xa), mklin(t[2], tb))
            out.append(l)
            ls = z3.simplify(l)
            facts[ls.get_id()] = (ls, True)
    if k in (z3.Z3_OP_ULEQ, z3.Z3_OP_EQ):
        A, B = a.arg(0), a.arg(1)
        if A.sort_kind() != z3.Z3_BV_SORT or A.size() != 64:
            return out
        x, t = linpart(A), linpart(B)
        if x[0] == t[0]:
            return out
        if k == z3.Z3_OP_ULEQ:
            if pol:
                le(x, x[1], t, t[1])
            else:   # B < A
                l = z3.ULE(mklin(t[2], (t[1] + 1) & U64), A)
                out.append(l)
                ls = z3.simplify(l)
                facts[ls.get_id()] = (ls, True)
                le(t, (t[1] + 1) & U64, x, x[1])
        elif not pol:
            for p, q in ((x, t), (t, x)):
                d = (q[1] - p[1]) & U64
                if ("ne", p[0], q[0], d) in facts:
                    continue
                facts[("ne", p[0], q[0], d)] = (p, q)
                for key in [f for f in facts if isinstance(f, tuple) and f[0] == "le" and f[1] == p[0] and f[3] == q[0] and (f[4] - f[2]) & U64 == d]:
                    xa = (key[2] + 1) & U64
                    l = z3.ULE(mklin(p[2], xa), mklin(q[2], key[4]))
                    out.append(l)
                    ls = z3.simplify(l)
                    facts[ls.get_id()] = (ls, True)
                    le(p, xa, q, key[4])
    return out


def mklin(b, c):
    if b is None:
        return bv(c, 64)
    return b if c == 0 else b + bv(c, 64)


def truth(c, facts, depth=0):
    k = c.decl().kind()
    if k == z3.Z3_OP_TRUE:
        return True
    if k == z3.Z3_OP_FALSE:
        return False
    f = facts.get(c.get_id())
    if f is not None:
        return f[1]
    if k == z3.Z3_OP_NOT:
        r = truth(c.arg(0), facts, depth + 1)
        return None if r is None else not r
    if depth < 6 and k in (z3.Z3_OP_AND, z3.Z3_OP_OR):
        stop = k == z3.Z3_OP_OR
        allk = True
        for i in range(c.num_args()):
            r = truth(c.arg(i), facts, depth + 1)
            if r is stop:
                return stop
            if r is None:
                allk = False
        return (not stop) if allk else None
    return None


class Ctx:
    __slots__ = ("act", "loop", "depth", "final", "backs", "exits")


class VCG:
    def __init__(self, mod, opts=None):
        self.m = mod
        o = opts or {}
        self.qtimeout = o.get("qtimeout", 30000)
        self.inc_ms = 800
        self.deadline = o.get("deadline", None)
        self.bmc = o.get("bmc", 0)
        self.ub = o.get("ub", True)
        self.verbose = o.get("verbose", False)
        self.logic = o.get("logic", None)
        self.chain = not os.environ.get('NOCHAIN')
        self.max_paths = o.get("max_paths", 200000)
        self.fresh_n = 0
        self.obj_n = 0
        self.globs = {}
        self.bases = {}
        self.i2p = {}
        self.ufs = {}
        self.solver = self._mk_solver()
        self.stack = []
        self.nq = 0
        self.tq = 0.0
        self.obl = {}           # label -> dict
        self.failures = []
        self.undecided = []
        self.covered = {}
        self.npaths = 0
        self.ended_ok = 0
        self.act_n = 0
        self.final = True
        self.warm = {}
        self.inv_report = {}
        self.inv_reported = set()
        self.functions = {}
        self.inst_count = 0
        self.mem0 = {}
        self.ncvc5 = 0
        self.len_bound = o.get("len_bound", None)
        self.stop_on_fail = o.get("stop_on_fail", False)
        self.maxquery = 0.0
        self.pure = 0
        self.trips = {}
        self.keep = []
        self.nsw_poison = o.get("nsw_poison", set())
        self.poison_n = itertools.count()

    def _mk_solver(self):
        s = z3.SolverFor(self.logic) if self.logic else z3.Solver()
        return s

    # -------------------------------------------------------------- solver
    def _sync(self, pc):
        lst = []
        p = pc
        while p is not None:
            lst.append(p)
            p = p[0]
        lst.reverse()
        st = self.stack
        i = 0
        n = min(len(lst), len(st))
        while i < n and st[i] is lst[i]:
            i += 1
        for _ in range(len(st) - i):
            self.solver.pop()
        del st[i:]
        for x in lst[i:]:
            self.solver.push()
            self.solver.add(x[1])
            st.append(x)

    def check(self, state, *conds):
        if self.deadline and time.time() > self.deadline:
            raise Timeout()
        self._sync(state.pc)
        t = time.time()
        self.solver.push()
        for c in conds:
            self.solver.add(bl(c))
        self.solver.set("timeout", self.inc_ms)
        r = self.solver.check()
        if r == z3.unknown:
            self.inc_ms = max(100, self.inc_ms // 2)
        elif self.inc_ms < 800 and time.time() - t > self.inc_ms / 3000:
            self.inc_ms *= 2
        m = self.solver.model() if r == z3.sat else None
        self.solver.pop()
        dt = time.time() - t
        self.nq += 1
        self.tq += dt
        if dt > self.maxquery:
            self.maxquery = dt
        if dt > 2 and os.environ.get("VC_DUMP"):
            sd = z3.Solver()
            p_ = state.pc
            while p_ is not None:
                sd.add(p_[1])
                p_ = p_[0]
            for c in conds:
                sd.add(bl(c))
            open(f"{os.environ['VC_DUMP']}/q{self.nq}_{int(dt)}_{r}.smt2", "w").write("(set-logic ALL)\n" + sd.to_smt2())
        if r == z3.unknown and not getattr(self, "_noretry", False):
            # fresh (non incremental) z3, then cvc5, then z3 with the full budget
            r, m = self.fresh_check(state, conds, 6000)
            if r == z3.unknown:
                if self.cvc5(state, conds):
                    return z3.unsat, None
                if self.qtimeout > 6000:
                    r, m = self.fresh_check(state, conds, self.qtimeout)
        return r, m

    def fresh_check(self, state, conds, ms):
        s = z3.SolverFor("QF_AUFBV")
        s.set("timeout", min(ms, self.qtimeout))
        p = state.pc
        while p is not None:
            s.add(p[1])
            p = p[0]
        for c in conds:
            s.add(bl(c))
        t = time.time()
        r = s.check()
        dt = time.time() - t
        self.tq += dt
        self.nq += 1
        self.maxquery = max(self.maxquery, dt)
        return r, (s.model() if r == z3.sat else None)

    def cvc5(self, state, conds):
        """second back end: True if cvc5 refutes the query"""
        sd = z3.Solver()
        p = state.pc
        while p is not None:
            sd.add(p[1])
            p = p[0]
        for c in conds:
            sd.add(bl(c))
        txt = "(set-logic ALL)\n" + sd.to_smt2()
        if "lambda" in txt:
            return False
        t = time.time()
        try:
            r = subprocess.run(["cvc5", "--lang=smt2", f"--tlimit={self.qtimeout}", "-"], input=txt,
                               stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True,
                               timeout=self.qtimeout / 1000 + 5)
            out = r.stdout.strip()
        except Exception:
            out = ""
        self.tq += time.time() - t
        self.ncvc5 += 1
        return out.startswith("unsat")

    def ev(self, model, c):
        v = model.eval(bl(c), model_completion=True)
        if z3.is_true(v):
            return True
        if z3.is_false(v):
            return False
        return None

    def valid(self, state, c):
        if is_c(c):
            return bool(c)
        if state.model is not None and self.ev(state.model, c) is False:
            return False
        r, m = self.check(state, z3.Not(c))
        if r == z3.sat and state.model is None:
            pass
        return r == z3.unsat

    def feasible(self, state, c):
        """-> (may be true, model)"""
        if is_c(c):
            return bool(c), state.model
        if state.model is not None and self.ev(state.model, c) is True:
            return True, state.model
        r, m = self.check(state, c)
        if r == z3.unsat:
            return False, None
        return True, m

    # -------------------------------------------------------------- obligations
    def where(self, inst):
        d = inst.dbg if inst is not None else None
        if not d:
            return None
        t = self.m.md.get(d, "")
        import re
        mm = re.search(r"line: (\d+)", t)
        line = mm.group(1) if mm else "?"
        sc = re.search(r"scope: (!\d+)", t)
        f = None
        hops = 0
        s = sc.group(1) if sc else None
        while s and hops < 50:
            tt = self.m.md.get(s, "")
            fm = re.search(r"file: (!\d+)", tt)
            if fm:
                ft = self.m.md.get(fm.group(1), "")
                fn = re.search(r'filename: "([^"]*)"', ft)
                f = fn.group(1) if fn else None
                break
            sm = re.search(r"scope: (!\d+)", tt)
            s = sm.group(1) if sm else None
            hops += 1
        return f"{f}:{line}"

    def oblige(self, state, cond, label, kind, inst=None):
        """assert cond; afterwards cond may be assumed"""
        if not self.final:
            if not is_c(cond):
                state.assume(cond)
                return self._drop_if_infeasible(state)
            if not cond:
                state.ended = "infeasible"
            return
        o = self.obl.get((kind, label))
        if o is None:
            o = self.obl[(kind, label)] = {"vcs": 0, "ok": 0, "trivial": 0, "fail": 0, "unknown": 0}
        o["vcs"] += 1
        if is_c(cond) and cond:
            o["ok"] += 1
            o["trivial"] += 1
            return
        nc = True if is_c(cond) else z3.Not(cond)
        if is_c(cond):
            r, m = self.check(state)
        else:
            if state.model is not None and self.ev(state.model, cond) is False:
                r, m = z3.sat, state.model
            else:
                r, m = self.check(state, nc)
        if r == z3.unsat:
            o["ok"] += 1
            if is_c(cond):
                state.ended = "infeasible"
        elif r == z3.sat:
            o["fail"] += 1
            self.failures.append(self._failure(state, label, kind, m, inst, nc))
            if self.stop_on_fail:
                state.ended = "failed"
                return
            state.model = None
            if is_c(cond):
                state.ended = "failed"
                return
            state.assume(cond)
            r2, m2 = self.check(state)
            if r2 == z3.unsat:
                state.ended = "failed"
            return
        else:
            o["unknown"] += 1
            self.undecided.append((kind, label, self.where(inst)))
        if not is_c(cond):
            state.assume(cond)

    def _drop_if_infeasible(self, state):
        pass

    def _failure(self, state, label, kind, m, inst, nc):
        lens = [bv(v, w) for k, nm, v, w in state.trace if k == "nd" and nm.startswith("len") and w > 1]
        lens += [bv(v[1], 64) for k, nm, v, w in state.trace if k == "arr"]
        if lens:
            for b in (3, 8, 40):
                cs = [z3.ULE(l, z3.BitVecVal(b, l.size())) for l in lens]
                r, m2 = self.check(state, z3.And(*([nc] if not is_c(nc) else []), *cs))
                if r == z3.sat:
                    m = m2
                    break
        return {"label": label, "kind": kind, "where": self.where(inst), "modular": state.modular,
                "trace": self.concretize(state, m), "fn": state.frames[-1].fn.name,
                "stack": [f.fn.name for f in state.frames]}

    def concretize(self, state, m):
        out = []
        if m is None:
            return out
        for kind, name, v, w in state.trace:
            if kind == "nd":
                x = m.eval(bv(v, w), model_completion=True)
                out.append(["nd", name, x.as_long()])
            elif kind == "uf":
                uf, args = v
                try:
                    avs = [m.eval(bv(a, 64), model_completion=True).as_long() for a in args]
                    x = m.eval(uf(*[bv(a, 64) for a in avs]), model_completion=True)
                    out.append(["uf", name, avs, x.as_long()])
                except Exception:
                    pass
            elif kind == "arr":
                arr, n = v
                n = m.eval(bv(n, 64), model_completion=True).as_long()
                if n > 4096:
                    n = 4096
                out.append(["arr", name, [m.eval(z3.Select(arr, bv(i, 64)), model_completion=True).as_long() for i in range(n)]])
        return out

    # -------------------------------------------------------------- fresh values
    def fresh(self, ty, name="u"):
        self.fresh_n += 1
        if ty.k == "int":
            if ty.n == 1:
                return z3.Bool(f"{name}!{self.fresh_n}")
            return z3.BitVec(f"{name}!{self.fresh_n}", ty.n)
        if ty.k == "ptr":
            return UNDEF
        if ty.k in ("struct",):
            return [self.fresh(f, name) for f in ty.fields]
        if ty.k == "array":
            return [self.fresh(ty.elem, name) for _ in range(ty.n)]
        if ty.k == "float":
            return UNDEF
        raise Unsupported("fresh " + ty.k)

    def fresh_bv(self, w, name="u"):
        self.fresh_n += 1
        if w == 1:
            return z3.Bool(f"{name}!{self.fresh_n}")
        return z3.BitVec(f"{name}!{self.fresh_n}", w)

    # -------------------------------------------------------------- memory
    def new_obj(self, state, name, size):
        self.obj_n += 1
        o = Obj(self.obj_n, name, size)
        o.owner = state.id
        state.mem[o.id] = o
        return o

    def wobj(self, state, oid):
        o = state.mem[oid]
        if o.owner != state.id:
            o = o.clone(state.id)
            state.mem[oid] = o
        return o

    def base(self, oid):
        if oid == 0:
            return bv(0, 64)
        b = self.bases.get(oid)
        if b is None:
            b = self.bases[oid] = z3.BitVec(f"base!{oid}", 64)
        return b

    def ptr_to_int(self, p):
        if isinstance(p, FnPtr):
            return self.base(-hash(p.name) % (1 << 30) + (1 << 40))
        if p.obj == 0:
            return p.off
        r = z3.simplify(self.base(p.obj) + bv(p.off, 64))
        self.i2p[r.get_id()] = (r, p)
        return r

    def int_to_ptr(self, v):
        if is_c(v):
            return Ptr(0, v)
        r = z3.simplify(v)
        e = self.i2p.get(r.get_id())
        if e is not None:
            return e[1]
        raise Unsupported("inttoptr")

    def global_ptr(self, state, name):
        if name in self.m.ftext or name in self.m.decls:
            return FnPtr(name)
        p = self.globs.get(name)
        if p is None:
            g = self.m.glob(name)
            if g is None:
                raise Unsupported("unknown global " + name)
            if g[0] == "alias":
                p = self.const_op(state, g[1])
                self.globs[name] = p
                return p
            ty, init, const = g
            layout(ty)
            self.obj_n += 1
            o = Obj(self.obj_n, name, ty.size)
            o.const = const
            p = self.globs[name] = Ptr(o.id, 0)
            self.mem0[o.id] = o
            if init is not None:
                self._init(state, o, 0, ty, init)
        if p.obj not in state.mem and isinstance(p, Ptr):
            state.mem[p.obj] = self.mem0[p.obj]
        return p

    def _init(self, state, o, off, ty, op):
        if op.k == "zero":
            if ty.k in ("int",):
                o.cells[off] = (ty.size, 0)
            elif ty.k == "ptr":
                o.cells[off] = (8, NULL)
            elif ty.k == "struct":
                for f, fo in zip(ty.fields, layout(ty).offs):
                    self._init(state, o, off + fo, f, Op("zero", None, f))
            elif ty.k == "array":
                for i in range(ty.n):
                    self._init(state, o, off + i * ty.elem.size, ty.elem, Op("zero", None, ty.elem))
            return
        if op.k == "undef":
            return
        if op.k == "str":
            for i, b in enumerate(op.v):
                o.cells[off + i] = (1, b)
            return
        if op.k == "agg":
            if ty.k == "struct":
                for f, fo, v in zip(ty.fields, layout(ty).offs, op.v):
                    self._init(state, o, off + fo, layout(f), v)
            else:
                es = layout(ty.elem).size
                for i, v in enumerate(op.v):
                    self._init(state, o, off + i * es, ty.elem, v)
            return
        v = self.const_op(state, op)
        o.cells[off] = (layout(ty).size, v)

    def load_bytes_arr(self, o, off, n):
        a = o.arr
        bs = [z3.Select(a, bv(off, 64) + bv(i, 64)) if i else z3.Select(a, bv(off, 64)) for i in range(n)]
        return bs[0] if n == 1 else z3.Concat(*reversed(bs))

    def to_arr(self, state, oid):
        o = self.wobj(state, oid)
        if o.arr is None:
            if any(isinstance(v, (Ptr, FnPtr)) for _, v in o.cells.values()):
                raise Unsupported("symbolic access into object holding pointers: " + o.name)
            g0 = self.mem0.get(oid)
            if o.const and g0 is not None and g0.arr is not None:
                o.arr = g0.arr
                o.cells = {}
                return o
            # most frequent byte as default keeps tables small
            bytes_ = {}
            for off, (sz, v) in o.cells.items():
                for i in range(sz):
                    bytes_[off + i] = self.byte_of(v, sz, i)
            from collections import Counter
            cnt = Counter(b for b in bytes_.values() if is_c(b))
            full = is_c(o.size) and len(bytes_) == o.size
            if full and cnt:
                dv = cnt.most_common(1)[0][0]
                arr = z3.K(z3.BitVecSort(64), bv(dv, 8))
            else:
                dv = None
                self.fresh_n += 1
                arr = z3.Array(f"mem!{o.name}!{self.fresh_n}", z3.BitVecSort(64), z3.BitVecSort(8))
            for off in sorted(bytes_):
                b = bytes_[off]
                if is_c(b) and b == dv:
                    continue
                arr = z3.Store(arr, bv(off, 64), bv(b, 8))
            o.arr = arr
            o.cells = {}
            if o.const and g0 is not None:
                g0.arr = arr
        return o

    def byte_of(self, v, sz, i):
        if isinstance(v, (Ptr, FnPtr)):
            v = self.ptr_to_int(v)
        if v is UNDEF:
            return self.fresh_bv(8, "undef")
        if is_c(v):
            return (v >> (8 * i)) & 0xFF
        if isinstance(v, z3.BoolRef):
            return z3.If(v, bv(1, 8), bv(0, 8)) if i == 0 else 0
        w = v.size()
        if w < sz * 8:
            v = z3.ZeroExt(sz * 8 - w, v)
        return z3.simplify(z3.Extract(8 * i + 7, 8 * i, v))

    def coerce(self, v, ty, sz):
        """value found in a cell of the right byte size -> register of type ty"""
        if ty.k == "ptr":
            if isinstance(v, (Ptr, FnPtr)) or v is UNDEF:
                return v
            return self.int_to_ptr(v)
        if isinstance(v, (Ptr, FnPtr)):
            v = self.ptr_to_int(v)
        if v is UNDEF:
            return self.fresh(ty, "undef")
        if ty.k == "float":
            return UNDEF
        if is_c(v):
            return v & mask(ty.n)
        if isinstance(v, z3.BoolRef):
            if ty.n == 1:
                return v
            return z3.If(v, bv(1, ty.n), bv(0, ty.n))
        if v.size() == ty.n:
            return v
        if ty.n == 1:
            return self.lowbit(v)
        if v.size() < ty.n:
            return z3.ZeroExt(ty.n - v.size(), v)
        return z3.Extract(ty.n - 1, 0, v)

    def lowbit(self, v):
        if z3.is_app_of(v, z3.Z3_OP_ITE):
            c, a, b = v.children()
            if z3.is_bv_value(a) and z3.is_bv_value(b):
                x, y = a.as_long() & 1, b.as_long() & 1
                if x and not y:
                    return c
                if y and not x:
                    return z3.Not(c)
                return x
        return z3.Extract(0, 0, v) == bv(1, 1)

    def check_access(self, state, p, sz, what, inst):
        if p is UNDEF or isinstance(p, FnPtr):
            raise Unsupported(f"{what} through undefined pointer")
        if p.obj == 0:
            self.oblige(state, 0, f"{what}-null@{self.where(inst)}", "memory", inst)
            return None
        o = state.mem[p.obj]
        if not o.alive:
            self.oblige(state, 0, f"{what}-after-free:{o.name}", "memory", inst)
            return None
        off, size = p.off, o.size
        if is_c(off) and is_c(size):
            if off + sz <= size:
                if self.final:
                    self._trivial("memory", f"{what}-bounds")
                return o
            cond = 0
        else:
            offb, sb = bv(off, 64), bv(size, 64)
            cond = z3.And(z3.ULE(offb, sb), z3.UGE(sb - offb, bv(sz, 64)))
        self.oblige(state, cond, f"{what}-bounds", "memory", inst)
        if state.ended:
            return None
        return o

    def _trivial(self, kind, label):
        o = self.obl.get((kind, label))
        if o is None:
            o = self.obl[(kind, label)] = {"vcs": 0, "ok": 0, "trivial": 0, "fail": 0, "unknown": 0}
        o["vcs"] += 1
        o["ok"] += 1
        o["trivial"] += 1

    def load(self, state, p, ty, inst=None, checked=False):
        layout(ty)
        if ty.k == "struct":
            return [self.load(state, self.padd(p, fo), f, inst) for f, fo in zip(ty.fields, ty.offs)]
        if ty.k == "array":
            es = ty.elem.size
            return [self.load(state, self.padd(p, i * es), ty.elem, inst) for i in range(ty.n)]
        if ty.k == "vec":
            raise Unsupported("vector load")
        sz = ty.size if ty.k != "int" else (ty.n + 7) // 8
        o = self.check_access(state, p, sz, "load", inst)
        if o is None:
            return self.fresh(ty) if ty.k != "ptr" else NULL
        off = p.off
        if o.arr is None and not is_c(off):
            v = z3.simplify(off)
            if z3.is_bv_value(v):
                off = v.as_long()
            else:
                o = self.to_arr(state, p.obj)
        if o.arr is not None:
            if ty.k == "ptr":
                raise Unsupported("pointer load from array object")
            if p.obj in state.axioms:
                self.instantiate(state, p.obj, off, sz)
            r = self.load_bytes_arr(o, off, sz)
            if o.const:
                r = z3.simplify(r)
                if z3.is_bv_value(r):
                    r = r.as_long()
            return self.coerce(r, ty, sz)
        return self.coerce(self.load_cell(o, off, sz), ty, sz)

    def instantiate(self, s, oid, off, sz):
        """requires-clauses of the form `forall i. P(i)` over an input array, instantiated at a read"""
        ax = s.axioms.get(oid)
        if not ax or self.pure:
            return
        for key, elem, fn in ax:
            for b in range(0, sz, elem):
                if is_c(off):
                    idx = (off + b) // elem
                    ik = (key, idx)
                else:
                    t = bv(off, 64)
                    if b:
                        t = t + bv(b, 64)
                    if elem > 1:
                        t = z3.LShR(t, bv(elem.bit_length() - 1, 64))
                    idx = z3.simplify(t)
                    if z3.is_bv_value(idx):
                        idx = idx.as_long()
                        ik = (key, idx)
                    else:
                        self.keep.append(idx)
                        ik = (key, "t", idx.get_id())
                if ik in s.inst:
                    continue
                s.inst = s.inst | {ik}
                c = fn(s, idx)
                if is_c(c) and c:
                    continue
                if not is_c(c):
                    c = z3.simplify(c)
                    if z3.is_true(c):
                        continue
                if s.model is not None and self.ev(s.model, c) is not True:
                    s.model = None
                s.assume(c)

    def load_cell(self, o, off, sz):
        c = o.cells.get(off)
        if c is not None and c[0] == sz:
            return c[1]
        # compose
        bs = []
        allundef = True
        for i in range(sz):
            b = self.find_byte(o, off + i)
            if b is not None:
                allundef = False
            bs.append(b)
        if allundef:
            return UNDEF
        bs = [self.fresh_bv(8, "undef") if b is None else b for b in bs]
        if all(is_c(b) for b in bs):
            return sum(b << (8 * i) for i, b in enumerate(bs))
        return z3.simplify(z3.Concat(*[bv(b, 8) for b in reversed(bs)])) if sz > 1 else bs[0]

    def find_byte(self, o, off):
        for d in (0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15):
            c = o.cells.get(off - d)
            if c is not None:
                if c[0] > d:
                    return self.byte_of(c[1], c[0], d)
                return None if d == 0 else self._fb2(o, off, d)
        return None

    def _fb2(self, o, off, d0):
        for d in range(d0 + 1, 16):
            c = o.cells.get(off - d)
            if c is not None and c[0] > d:
                return self.byte_of(c[1], c[0], d)
        return None

    def store(self, state, p, v, ty, inst=None):
        layout(ty)
        if ty.k == "struct":
            for x, f, fo in zip(v, ty.fields, ty.offs):
                self.store(state, self.padd(p, fo), x, f, inst)
            return
        if ty.k == "array":
            for i, x in enumerate(v):
                self.store(state, self.padd(p, i * ty.elem.size), x, ty.elem, inst)
            return
        sz = ty.size if ty.k != "int" else (ty.n + 7) // 8
        o = self.check_access(state, p, sz, "store", inst)
        if o is None:
            return
        if o.const:
            self.oblige(state, 0, f"store-to-const:{o.name}", "memory", inst)
            return
        off = p.off
        o = self.wobj(state, p.obj)
        if o.arr is None and not is_c(off):
            w = z3.simplify(off)
            if z3.is_bv_value(w):
                off = w.as_long()
            else:
                o = self.to_arr(state, p.obj)
        if o.arr is not None:
            if isinstance(v, (Ptr, FnPtr)):
                raise Unsupported("pointer store into array object " + o.name)
            a = o.arr
            for i in range(sz):
                a = z3.Store(a, bv(off, 64) + bv(i, 64) if i else bv(off, 64), bv(self.byte_of(v, sz, i), 8))
            o.arr = a
            return
        self.store_cell(o, off, sz, v)

    def store_cell(self, o, off, sz, v):
        c = o.cells.get(off)
        if c is not None and c[0] == sz:
            o.cells[off] = (sz, v)
            return
        # split overlapping cells
        for d in range(1, 16):
            c = o.cells.get(off - d)
            if c is not None and c[0] > d:
                self.split(o, off - d)
        for i in range(sz):
            c = o.cells.get(off + i)
            if c is not None:
                if c[0] > 1:
                    self.split(o, off + i)
                if off + i in o.cells:
                    del o.cells[off + i]
        for i in range(sz):
            o.cells.pop(off + i, None)
        o.cells[off] = (sz, v)

    def split(self, o, off):
        sz, v = o.cells.pop(off)
        if v is UNDEF:
            return
        for i in range(sz):
            o.cells[off + i] = (1, self.byte_of(v, sz, i))

    def padd(self, p, d):
        if is_c(d) and d == 0:
            return p
        if p is UNDEF:
            return p
        if is_c(p.off) and is_c(d):
            return Ptr(p.obj, (p.off + d) & U64)
        return Ptr(p.obj, z3.simplify(bv(p.off, 64) + bv(d, 64)))

    def memcpy(self, state, dst, src, n, inst, move=False):
        if is_c(n):
            if n == 0:
                return
            so = self.check_access(state, src, n, "memcpy-src", inst)
            if so is None:
                return
            do = self.check_access(state, dst, n, "memcpy-dst", inst)
            if do is None:
                return
            if so.arr is None and do.arr is None and is_c(src.off) and is_c(dst.off):
                items = []
                covered = set()
                for off in sorted(k for k in so.cells if src.off - 15 <= k < src.off + n):
                    sz, v = so.cells[off]
                    if off >= src.off and off + sz <= src.off + n:
                        items.append((off - src.off, sz, v))
                    else:
                        for i in range(sz):
                            if src.off <= off + i < src.off + n:
                                items.append((off + i - src.off, 1, self.byte_of(v, sz, i)))
                do = self.wobj(state, dst.obj)
                # clear destination range
                for d in range(1, 16):
                    c = do.cells.get(dst.off - d)
                    if c is not None and c[0] > d:
                        self.split(do, dst.off - d)
                for k in [k for k in do.cells if dst.off <= k < dst.off + n]:
                    sz, v = do.cells[k]
                    if k + sz > dst.off + n:
                        self.split(do, k)
                    do.cells.pop(k, None)
                for k in [k for k in do.cells if dst.off <= k < dst.off + n]:
                    del do.cells[k]
                for off, sz, v in items:
                    do.cells[dst.off + off] = (sz, v)
                return
            if n <= 64:
                bs = [self.load(state, self.padd(src, i), int_ty(8), inst) for i in range(n)]
                for i, b in enumerate(bs):
                    self.store(state, self.padd(dst, i), b, int_ty(8), inst)
                return
        # symbolic length / big: arrays with a lambda
        nb = bv(n, 64)
        for p, w in ((src, "memcpy-src"), (dst, "memcpy-dst")):
            o = state.mem.get(p.obj)
            if p.obj == 0:
                self.oblige(state, nb == bv(0, 64), w + "-null", "memory", inst)
                if state.ended:
                    return
                state.assume(nb == bv(0, 64))
                return
            if not o.alive:
                self.oblige(state, nb == bv(0, 64), w + "-after-free", "memory", inst)
                return
            offb, sb = bv(p.off, 64), bv(o.size, 64)
            self.oblige(state, z3.Or(nb == 0, z3.And(z3.ULE(offb, sb), z3.UGE(sb - offb, nb))), w + "-bounds", "memory", inst)
            if state.ended:
                return
        so = self.to_arr(state, src.obj)
        do = self.to_arr(state, dst.obj)
        i = z3.BitVec("i!l", 64)
        d0, s0 = bv(dst.off, 64), bv(src.off, 64)
        do.arr = z3.Lambda([i], z3.If(z3.ULT(i - d0, nb), z3.Select(so.arr, i - d0 + s0), z3.Select(do.arr, i)))

    def memset(self, state, dst, val, n, inst):
        if is_c(n):
            if n == 0:
                return
            o = self.check_access(state, dst, n, "memset", inst)
            if o is None:
                return
            if o.arr is None and is_c(dst.off) and n <= 8192:
                o = self.wobj(state, dst.obj)
                for i in range(n):
                    self.store_cell(o, dst.off + i, 1, val)
                return
        nb = bv(n, 64)
        o = state.mem.get(dst.obj)
        offb, sb = bv(dst.off, 64), bv(o.size, 64)
        self.oblige(state, z3.And(z3.ULE(offb, sb), z3.UGE(sb - offb, nb)), "memset-bounds", "memory", inst)
        if state.ended:
            return
        o = self.to_arr(state, dst.obj)
        i = z3.BitVec("i!l", 64)
        o.arr = z3.Lambda([i], z3.If(z3.ULT(i - offb, nb), bv(val, 8), z3.Select(o.arr, i)))

    # -------------------------------------------------------------- operands
    def const_op(self, state, op):
        k = op.k
        if k == "int":
            return op.v
        if k == "null":
            return NULL
        if k == "undef":
            if op.ty.k == "struct":
                return [self.const_op(state, Op("undef", None, f)) for f in op.ty.fields]
            if op.ty.k == "array":
                return [self.const_op(state, Op("undef", None, op.ty.elem)) for _ in range(op.ty.n)]
            return UNDEF
        if k == "zero":
            t = op.ty
            if t.k == "int":
                return 0
            if t.k == "ptr":
                return NULL
            if t.k == "struct":
                return [self.const_op(state, Op("zero", None, f)) for f in t.fields]
            if t.k == "array":
                return [self.const_op(state, Op("zero", None, t.elem)) for _ in range(t.n)]
            return UNDEF
        if k == "global":
            return self.global_ptr(state, op.v)
        if k == "agg":
            return [self.const_op(state, x) for x in op.v]
        if k == "cexpr":
            e = op.v
            if e[0] == "gep":
                vals = [self.const_op(state, x) for x in e[2]]
                return self.do_gep(e[1], e[2], vals)
            if e[0] == "cast":
                v = self.const_op(state, e[2])
                return self.do_cast(e[1], v, e[2].ty, e[3])
            if e[0] == "bin":
                a, b = self.const_op(state, e[2]), self.const_op(state, e[3])
                return self.do_bin(state, e[1], a, b, e[2].ty.n, (), None)
            if e[0] == "icmp":
                a, b = self.const_op(state, e[2]), self.const_op(state, e[3])
                return self.do_icmp(state, e[1], a, b, e[2].ty)
        raise Unsupported("const " + k)

    def val(self, state, fr, op):
        k = op.k
        if k == "reg":
            return fr.regs[op.v]
        if k == "int":
            return op.v
        return self.const_op(state, op)

    def mat(self, v, ty):
        """materialise undef"""
        if v is UNDEF and ty.k == "int":
            return self.fresh(ty, "undef")
        return v

    # -------------------------------------------------------------- operations
    def do_gep(self, bt, ops, vals):
        p = vals[0]
        off = 0
        sym = None
        t = bt
        for j, (op, v) in enumerate(zip(ops[1:], vals[1:])):
            w = op.ty.n
            if j == 0:
                sz = layout(t).size
                et = t
            else:
                if t.k == "struct":
                    off += layout(t).offs[v]
                    t = t.fields[v]
                    continue
                sz = layout(t.elem).size
                t = t.elem
            if v is UNDEF:
                v = self.fresh_bv(w, "undef")
            if is_c(v):
                off += sgn(v, w) * sz
            else:
                vv = v if w == 64 else z3.SignExt(64 - w, bv(v, w))
                term = vv * bv(sz, 64) if sz != 1 else vv
                sym = term if sym is None else sym + term
        if p is UNDEF:
            return UNDEF
        if isinstance(p, FnPtr):
            raise Unsupported("gep on function")
        if sym is None:
            return self.padd(p, off & U64 if off else 0)
        r = sym + bv(off & U64, 64) if off else sym
        return self.padd(p, r)

    def do_cast(self, op, v, st, dt):
        if op == "bitcast":
            return v
        if op == "ptrtoint":
            if v is UNDEF:
                return self.fresh(dt)
            r = self.ptr_to_int(v)
            if dt.n < 64:
                return r & mask(dt.n) if is_c(r) else z3.Extract(dt.n - 1, 0, r)
            return r
        if op == "inttoptr":
            return self.int_to_ptr(v)
        if st.k == "float" or dt.k == "float":
            return UNDEF if dt.k == "float" else self.fresh(dt, "float")
        v = self.mat(v, st)
        w, n = st.n, dt.n
        if isinstance(v, (Ptr, FnPtr)):
            v = self.ptr_to_int(v)
        if op == "zext":
            if is_c(v):
                return v
            if w == 1:
                return z3.If(v, bv(1, n), bv(0, n))
            return z3.ZeroExt(n - w, v)
        if op == "sext":
            if is_c(v):
                return sgn(v, w) & mask(n)
            if w == 1:
                return z3.If(v, bv(mask(n), n), bv(0, n))
            return z3.SignExt(n - w, v)
        if op == "trunc":
            if is_c(v):
                return v & mask(n)
            if n == 1:
                return self.lowbit(v)
            if z3.is_app_of(v, z3.Z3_OP_ZERO_EXT) and v.arg(0).size() == n:
                return v.arg(0)
            return z3.Extract(n - 1, 0, v)
        raise Unsupported("cast " + op)

    def do_bin(self, state, op, a, b, w, fl, inst):
        if isinstance(a, (Ptr, FnPtr)):
            a = self.ptr_to_int(a)
        if isinstance(b, (Ptr, FnPtr)):
            b = self.ptr_to_int(b)
        if a is UNDEF:
            a = self.fresh_bv(w, "undef")
        if b is UNDEF:
            b = self.fresh_bv(w, "undef")
        if self.ub and inst is not None:
            if "nsw" in fl and op in ("add", "sub", "mul") and w > 1:
                po = self.nsw(state, op, a, b, w, inst)
                if state.ended:
                    return 0
                if po is not None:
                    r = self.do_bin(state, op, a, b, w, (), None)
                    return z3.If(po[0], bv(r, w), po[1])
            elif op in ("udiv", "sdiv", "urem", "srem"):
                if is_c(b):
                    if b == 0:
                        self.oblige(state, 0, f"division-by-zero", "undefined", inst)
                        return 0
                else:
                    self.oblige(state, b != bv(0, w), "division-by-zero", "undefined", inst)
            elif op in ("shl", "lshr", "ashr"):
                if is_c(b):
                    if b >= w:
                        self.oblige(state, 0, "shift-out-of-range", "undefined", inst)
                        return 0
                else:
                    self.oblige(state, z3.ULT(b, bv(w, w)), "shift-out-of-range", "undefined", inst)
        if is_c(a) and is_c(b):
            M = mask(w)
            if op == "add":
                return (a + b) & M
            if op == "sub":
                return (a - b) & M
            if op == "mul":
                return (a * b) & M
            if op == "and":
                return a & b
            if op == "or":
                return a | b
            if op == "xor":
                return a ^ b
            if op == "shl":
                return (a << b) & M if b < w else 0
            if op == "lshr":
                return a >> b if b < w else 0
            if op == "ashr":
                return (sgn(a, w) >> min(b, w - 1)) & M
            if b == 0:
                return 0
            if op == "udiv":
                return a // b
            if op == "urem":
                return a % b
            sa, sb = sgn(a, w), sgn(b, w)
            q = abs(sa) // abs(sb)
            if (sa < 0) != (sb < 0):
                q = -q
            if op == "sdiv":
                return q & M
            if op == "srem":
                return (sa - q * sb) & M
        if w == 1:
            A, B = bl(a), bl(b)
            if op == "and":
                if is_c(a):
                    return b if a else 0
                if is_c(b):
                    return a if b else 0
                return z3.And(A, B)
            if op == "or":
                if is_c(a):
                    return 1 if a else b
                if is_c(b):
                    return 1 if b else a
                return z3.Or(A, B)
            if op == "xor":
                if is_c(a):
                    return self.notb(b) if a else b
                if is_c(b):
                    return self.notb(a) if b else a
                return z3.Xor(A, B)
            raise Unsupported("i1 " + op)
        # identities
        if is_c(b):
            if b == 0 and op in ("add", "sub", "or", "xor", "shl", "lshr", "ashr"):
                return a
            if b == 0 and op in ("and", "mul"):
                return 0
            if b == 1 and op in ("mul", "udiv", "sdiv"):
                return a
            if b == mask(w) and op == "and":
                return a
        if is_c(a):
            if a == 0 and op in ("add", "or", "xor"):
                return b
            if a == 0 and op in ("and", "mul", "shl", "lshr", "ashr"):
                return 0
        if op in ("and", "or", "xor"):
            p_, q_ = as_bool(a), as_bool(b)
            if p_ is not None and q_ is not None:
                c = self.do_bin(state, op, p_, q_, 1, (), None)
                return int(c) if is_c(c) else z3.If(c, bv(1, w), bv(0, w))
        A, B = bv(a, w), bv(b, w)
        if op == "add":
            r = A + B
        elif op == "sub":
            r = z3.simplify(A - B)
        elif op == "mul":
            r = A * B
        elif op == "and":
            r = A & B
        elif op == "or":
            r = A | B
        elif op == "xor":
            r = A ^ B
        elif op == "shl":
            r = A << B
        elif op == "lshr":
            r = z3.LShR(A, B)
        elif op == "ashr":
            r = A >> B
        elif op == "udiv":
            r = z3.UDiv(A, B)
        elif op == "urem":
            r = z3.URem(A, B)
        elif op == "sdiv":
            r = A / B
        elif op == "srem":
            r = z3.SRem(A, B)
        if z3.is_bv_value(r):
            return r.as_long()
        return r

    def notb(self, c):
        if is_c(c):
            return 1 - c
        if z3.is_not(c):
            return c.arg(0)
        return z3.Not(c)

    def nsw(self, state, op, a, b, w, inst):
        if is_c(a) and is_c(b):
            x, y = sgn(a, w), sgn(b, w)
            r = x + y if op == "add" else x - y if op == "sub" else x * y
            if not (-(1 << (w - 1)) <= r < (1 << (w - 1))):
                c = z3.BoolVal(False)
            else:
                return
        else:
            c = self.no_overflow(op, bv(a, w), bv(b, w))
        if z3.is_true(c):
            if self.final:
                self._trivial("undefined", "signed-overflow")
            return
        if id(inst) in self.nsw_poison:
            # the optimizer may have moved the operation above the check that protects it: its result is poison,
            # an error only if a branch, an address or an assertion depends on it
            p = z3.BitVec(f"poison!{next(self.poison_n)}", w)
            state.poison += ((p, c, inst),)
            return c, p
        if self.final and inst is not None:
            r, m = self.check(state, z3.Not(c))
            if r != z3.unsat:
                self.nsw_poison.add(id(inst))
                raise Restart()
            state.assume(c)
            self._trivial("undefined", "signed-overflow")
            return
        self.oblige(state, c, "signed-overflow", "undefined", inst)

    def no_overflow(self, op, A, B):
        if op == "add":
            c = z3.And(z3.BVAddNoOverflow(A, B, True), z3.BVAddNoUnderflow(A, B))
        elif op == "sub":
            c = z3.And(z3.BVSubNoOverflow(A, B), z3.BVSubNoUnderflow(A, B, True))
        else:
            c = z3.And(z3.BVMulNoOverflow(A, B, True), z3.BVMulNoUnderflow(A, B))
        return z3.simplify(c)

    def poison_use(self, state, c, what):
        """c (branch condition, loop carried value) must not depend on a poison value"""
        if not state.poison or is_c(c) or not z3.is_expr(c):
            return
        for p, ok, inst in state.poison:
            if not self.has_const(c, p):
                continue
            c2 = z3.substitute(c, (p, z3.FreshConst(p.sort(), "poison")))
            self.oblige(state, z3.Or(ok, c == c2), "signed-overflow", "undefined", inst)
            if state.ended:
                return

    def has_const(self, c, p):
        seen, todo = set(), [c]
        pid = p.get_id()
        while todo:
            x = todo.pop()
            i = x.get_id()
            if i == pid:
                return True
            if i in seen:
                continue
            seen.add(i)
            todo.extend(x.children())
        return False

    def do_icmp(self, state, pr, a, b, ty):
        if ty.k == "ptr" or isinstance(a, (Ptr, FnPtr)) or isinstance(b, (Ptr, FnPtr)):
            return self.ptr_cmp(state, pr, a, b)
        w = ty.n
        if a is UNDEF:
            a = self.fresh_bv(w, "undef")
        if b is UNDEF:
            b = self.fresh_bv(w, "undef")
        if is_c(a) and is_c(b):
            if pr[0] == "s":
                a, b = sgn(a, w), sgn(b, w)
            return int({"eq": a == b, "ne": a != b, "ugt": a > b, "uge": a >= b, "ult": a < b, "ule": a <= b,
                        "sgt": a > b, "sge": a >= b, "slt": a < b, "sle": a <= b}[pr])
        if w == 1:
            A, B = bl(a), bl(b)
            if pr == "eq":
                if is_c(a):
                    return b if a else self.notb(b)
                if is_c(b):
                    return a if b else self.notb(a)
                return A == B
            if pr == "ne":
                if is_c(a):
                    return self.notb(b) if a else b
                if is_c(b):
                    return self.notb(a) if b else a
                return A != B
            A, B = bv(a, 8), bv(b, 8)
            return {"ugt": z3.UGT, "uge": z3.UGE, "ult": z3.ULT, "ule": z3.ULE}[pr](A, B)
        A, B = bv(a, w), bv(b, w)
        if A.eq(B):
            return int(pr in ("eq", "uge", "ule", "sge", "sle"))
        # ite(c, k1, k2) compared with a constant
        if is_c(b) and z3.is_app_of(A, z3.Z3_OP_ITE) and z3.is_bv_value(A.arg(1)) and z3.is_bv_value(A.arg(2)):
            x = self.do_icmp(state, pr, A.arg(1).as_long(), b, ty)
            y = self.do_icmp(state, pr, A.arg(2).as_long(), b, ty)
            if x == y:
                return x
            return A.arg(0) if x else self.notb(A.arg(0))
        if pr in ("eq", "ne"):
            p_, q_ = as_bool(a), as_bool(b)
            if p_ is not None and q_ is not None:
                return self.do_icmp(state, pr, p_, q_, int_ty(1))
        if pr == "eq":
            return A == B
        if pr == "ne":
            return z3.Not(A == B)
        return {"ugt": z3.UGT, "uge": z3.UGE, "ult": z3.ULT, "ule": z3.ULE,
                "sgt": lambda x, y: x > y, "sge": lambda x, y: x >= y, "slt": lambda x, y: x < y,
                "sle": lambda x, y: x <= y}[pr](A, B)

    def ptr_cmp(self, state, pr, a, b):
        if not isinstance(a, (Ptr, FnPtr)) and a is not UNDEF:
            a = self.int_to_ptr(a)
        if not isinstance(b, (Ptr, FnPtr)) and b is not UNDEF:
            b = self.int_to_ptr(b)
        if a is UNDEF or b is UNDEF:
            return self.fresh_bv(1, "undef")
        if isinstance(a, FnPtr) or isinstance(b, FnPtr):
            same = isinstance(a, FnPtr) and isinstance(b, FnPtr) and a.name == b.name
            return int(same == (pr == "eq"))
        if a.obj == b.obj:
            return self.do_icmp(state, pr, a.off, b.off, int_ty(64))
        if pr == "eq":
            return 0
        if pr == "ne":
            return 1
        if a.obj == 0 and is_c(a.off) and a.off == 0 and pr in ("ult", "ule"):
            return 1
        if b.obj == 0 and is_c(b.off) and b.off == 0 and pr in ("ugt", "uge"):
            return 1
        if a.obj == 0 and is_c(a.off) and a.off == 0 and pr in ("ugt", "uge"):
            return 0
        if b.obj == 0 and is_c(b.off) and b.off == 0 and pr in ("ult", "ule"):
            return 0
        # unrelated objects: order unspecified
        return self.do_icmp(state, pr, self.ptr_to_int(a), self.ptr_to_int(b), int_ty(64))

    def ite(self, state, c, a, b, ty):
        if is_c(c):
            return a if c else b
        if a is b:
            return a
        if ty.k == "ptr":
            if isinstance(a, Ptr) and isinstance(b, Ptr) and a.obj == b.obj:
                if is_c(a.off) and is_c(b.off) and a.off == b.off:
                    return a
                return Ptr(a.obj, z3.If(c, bv(a.off, 64), bv(b.off, 64)))
            return None
        if ty.k == "int":
            a, b = self.mat(a, ty), self.mat(b, ty)
            if isinstance(a, Ptr):
                a = self.ptr_to_int(a)
            if isinstance(b, Ptr):
                b = self.ptr_to_int(b)
            if ty.n == 1:
                if is_c(a) and is_c(b):
                    if a == b:
                        return a
                    return c if a else self.notb(c)
                if is_c(a):
                    return z3.Or(c, b) if a else z3.And(self.notb(c), b)
                if is_c(b):
                    return z3.Or(self.notb(c), a) if b else z3.And(c, a)
                return z3.If(c, a, b)
            if is_c(a) and is_c(b) and a == b:
                return a
            return z3.If(c, bv(a, ty.n), bv(b, ty.n))
        if ty.k == "struct":
            r = []
            for x, y, f in zip(a, b, ty.fields):
                z = self.ite(state, c, x, y, f)
                if z is None:
                    return None
                r.append(z)
            return r
        return None

    # -------------------------------------------------------------- exploration
    def run(self, name):
        f = self.m.func(name)
        if f is None:
            raise Unsupported("no function " + name)
        s = State()
        for g in self.m.gtext:
            # every mutable global exists from the start (ghost state, loop frame inference)
            if re.search(r"(^|\s)global\s", self.m.gtext[g]) and "external" not in self.m.gtext[g][:12]:
                self.global_ptr(s, g)
        self.push_frame(s, f, [], None)
        exits = self.explore([s], None)
        return self

    def push_frame(self, state, f, args, res):
        fr = Frame()
        fr.fn = f
        fr.block = f.entry
        fr.ip = 0
        fr.prev = None
        fr.regs = {}
        fr.res = res
        self.act_n += 1
        fr.act = self.act_n
        fr.allocas = []
        fr.counts = {} if self.bmc else None
        for (nm, ty), v in zip(f.params, args):
            fr.regs[nm] = v
        for i, ty in f.byval.items():
            o = self.new_obj(state, "byval", layout(ty).size)
            self.memcpy(state, Ptr(o.id, 0), args[i], ty.size, None)
            fr.regs[f.params[i][0]] = Ptr(o.id, 0)
        state.frames.append(fr)
        self.functions[f.name] = self.functions.get(f.name, 0) + 1
        if len(state.frames) > 400:
            raise Unsupported("recursion too deep: " + f.name)

    def explore(self, work, ctx):
        """runs states until they end; with a ctx, stops at back edges / exits of ctx.loop"""
        while work:
            s = work.pop()
            while s is not None:
                if self.deadline and (self.inst_count & 0x3FF) == 0 and time.time() > self.deadline:
                    raise Timeout()
                r = self.step(s, work, ctx)
                if r is None:
                    if s.ended is not None:
                        s = None
                    continue
                if r == "stop":
                    s = None
                else:
                    s = r
        return

    def goto(self, s, fr, target, work, ctx):
        """transfer control inside the current frame; handles loop headers.  returns None or 'stop'"""
        loops = fr.fn.loops
        if s.poison and target in loops:
            for ph in fr.fn.blocks[target].phis:
                self.poison_use(s, self.val(s, fr, ph.a[fr.block]), "loop")
                if s.ended:
                    return "stop"
        if ctx is not None and fr.act == ctx.act:
            if target == ctx.loop.header:
                fr.prev, fr.block = fr.block, target
                ctx.backs.append(s)
                return "stop"
            if target not in ctx.loop.blocks:
                fr.prev, fr.block = fr.block, target
                ctx.exits.append(s)
                return "stop"
        if target in loops:
            l = loops[target]
            if self.bmc:
                n = fr.counts.get(target, 0)
                if fr.block in l.blocks:
                    n += 1
                else:
                    n = 0
                fr.counts[target] = n
                if n > self.bmc:
                    s.ended = "bound"
                    return "stop"
            elif self.const_trip(fr.fn, l):
                pass    # a fixed number of iterations: executed, not cut
            elif fr.block not in l.blocks:
                fr.prev, fr.block = fr.block, target
                nfr = len(s.frames)
                for x in self.process_loop(s, l):
                    # x is positioned on an exit edge (prev/block set, phis of block not yet evaluated)
                    f2 = x.frames[-1]
                    if len(x.frames) < nfr:
                        # returned out of the function that contains the loop
                        if ctx is not None and fr.act == ctx.act:
                            ctx.exits.append(x)
                        else:
                            work.append(x)
                        continue
                    if f2.act == fr.act:
                        if ctx is not None and f2.act == ctx.act:
                            if f2.block == ctx.loop.header:
                                ctx.backs.append(x)
                                continue
                            if f2.block not in ctx.loop.blocks:
                                ctx.exits.append(x)
                                continue
                        r = self.enter_from_exit(x, work, ctx)
                        if r is not None:
                            work.append(r)
                    else:
                        raise Unsupported("loop exit into another activation")
                return "stop"
            # else: back edge inside bmc-less mode can only be ctx's own header (handled above)
            else:
                raise Unsupported("unexpected back edge")
        fr.prev, fr.block = fr.block, target
        self.enter_block(s, fr)
        return None

    def const_trip(self, fn, l):
        """the loop is left after a statically known number of iterations (counter from a constant, by a
        constant, compared to a constant in a block every iteration passes)"""
        key = (fn.name, l.header)
        r = self.trips.get(key)
        if r is None:
            r = self.trips[key] = self._const_trip(fn, l)
        return r

    def _const_trip(self, fn, l):
        hdr = fn.blocks[l.header]
        defs = {i.res: i for b in l.blocks for i in fn.blocks[b].insts if i.res is not None}
        for ph in hdr.phis:
            if ph.ty.k != "int":
                continue
            ins = [(b, o) for b, o in ph.a.items() if b not in l.blocks]
            backs = [(b, o) for b, o in ph.a.items() if b in l.blocks]
            if not ins or not backs or any(o.k != "int" for _, o in ins):
                continue
            w = ph.ty.n
            step = None
            nxt = set()
            for _, o in backs:
                d = defs.get(o.v) if o.k == "reg" else None
                if d is None or d.op != "add" or d.a[0].k != "reg" or d.a[0].v != ph.res or d.a[1].k != "int":
                    step = None
                    break
                st = sgn(d.a[1].v & mask(w), w)
                if step is not None and st != step:
                    step = None
                    break
                step = st
                nxt.add(o.v)
            if not step:
                continue
            # exit test in the header or in every latch
            for b in ([l.header] + (list(l.latches) if len(l.latches) == 1 else [])):
                br = fn.blocks[b].insts[-1]
                if br.op != "br" or br.a is None or br.a.k != "reg":
                    continue
                c = defs.get(br.a.v)
                if c is None or c.op != "icmp" or c.a[0].k != "reg" or c.a[1].k != "int":
                    continue
                if c.a[0].v != ph.res and c.a[0].v not in nxt:
                    continue
                out = [x not in l.blocks for x in br.x[:2]]
                if out[0] == out[1]:
                    continue
                worst = 0
                for _, o in ins:
                    v, n = o.v & mask(w), 0
                    while n <= 80:
                        x = (v + step) & mask(w) if c.a[0].v in nxt else v
                        taken = bool(self.do_icmp(None, c.x, x, c.a[1].v & mask(w), ph.ty))
                        if out[0 if taken else 1]:
                            break
                        v = (v + step) & mask(w)
                        n += 1
                    worst = max(worst, n)
                if worst <= 70:
                    return True
        return False

    def enter_from_exit(self, x, work, ctx):
        """an exit edge may lead directly to another loop header"""
        fr = x.frames[-1]
        target = fr.block
        if target in fr.fn.loops and fr.prev not in fr.fn.loops[target].blocks:
            fr.block = fr.prev
            r = self.goto(x, fr, target, work, ctx)
            return None if r == "stop" else x
        self.enter_block(x, fr)
        return x

    def enter_block(self, s, fr):
        b = fr.fn.blocks[fr.block]
        fr.ip = 0
        if b.phis:
            vals = [self.val(s, fr, ph.a[fr.prev]) for ph in b.phis]
            for ph, v in zip(b.phis, vals):
                fr.regs[ph.res] = v
        s.path = hash((s.path, fr.act and fr.block))

    def step(self, s, work, ctx):
        fr = s.frames[-1]
        inst = fr.fn.blocks[fr.block].insts[fr.ip]
        fr.ip += 1
        self.inst_count += 1
        op = inst.op
        if op == "load":
            fr.regs[inst.res] = self.load(s, self.val(s, fr, inst.a), inst.ty, inst)
            return None
        if op == "store":
            v, p = inst.a
            self.store(s, self.val(s, fr, p), self.val(s, fr, v), inst.ty, inst)
            return None
        if op == "gep":
            vals = [self.val(s, fr, x) for x in inst.a]
            fr.regs[inst.res] = self.do_gep(inst.ty, inst.a, vals)
            return None
        if op == "icmp":
            a, b = inst.a
            fr.regs[inst.res] = self.do_icmp(s, inst.x, self.val(s, fr, a), self.val(s, fr, b), inst.ty)
            return None
        if op == "cast":
            fr.regs[inst.res] = self.do_cast(inst.x, self.val(s, fr, inst.a), inst.a.ty, inst.ty)
            return None
        if op == "alloca":
            n = 1
            if inst.a is not None:
                n = self.val(s, fr, inst.a)
                if not is_c(n):
                    raise Unsupported("symbolic alloca")
            o = self.new_obj(s, f"{fr.fn.name[1:40]}:{inst.res}", layout(inst.ty).size * n)
            fr.allocas.append(o.id)
            fr.regs[inst.res] = Ptr(o.id, 0)
            return None
        if op == "br":
            if inst.a is None:
                return self.goto(s, fr, inst.x[0], work, ctx)
            c = self.mat(self.val(s, fr, inst.a), inst.a.ty)
            return self.branch(s, fr, c, inst.x[0], inst.x[1], work, ctx)
        if op in ("add", "sub", "mul", "and", "or", "xor", "shl", "lshr", "ashr", "udiv", "sdiv", "urem", "srem"):
            a, b = inst.a
            fr.regs[inst.res] = self.do_bin(s, op, self.val(s, fr, a), self.val(s, fr, b), inst.ty.n, inst.x, inst)
            return None
        if op == "select":
            c, a, b = inst.a
            cv = self.mat(self.val(s, fr, c), c.ty)
            av, bv_ = self.val(s, fr, a), self.val(s, fr, b)
            r = self.ite(s, cv, av, bv_, inst.ty)
            if r is None:
                # pointers to different objects: split
                t, mt = self.feasible(s, cv)
                e, me = self.feasible(s, self.notb(cv))
                if t and e:
                    s2 = s.fork()
                    s2.assume(self.notb(cv))
                    s2.model = me
                    s2.frames[-1].regs[inst.res] = bv_
                    s2.path = hash((s2.path, "selF"))
                    work.append(s2)
                    s.assume(cv)
                    s.model = mt
                    s.path = hash((s.path, "selT"))
                    fr.regs[inst.res] = av
                elif t:
                    s.assume(cv)
                    fr.regs[inst.res] = av
                elif e:
                    s.assume(self.notb(cv))
                    fr.regs[inst.res] = bv_
                else:
                    s.ended = "infeasible"
                return None
            fr.regs[inst.res] = r
            return None
        if op == "call":
            return self.call(s, fr, inst, work, ctx)
        if op == "ret":
            v = self.val(s, fr, inst.a) if inst.a is not None else None
            for oid in fr.allocas:
                s.mem.pop(oid, None)
            s.frames.pop()
            if not s.frames:
                s.ended = "done"
                if self.final:
                    self.npaths += 1
                    if self.npaths > self.max_paths:
                        raise Unsupported("too many paths")
                    self.ended_ok += 1
                return "stop"
            if ctx is not None and fr.act == ctx.act:
                # returned out of the loop's function
                g = s.frames[-1]
                if fr.res is not None:
                    g.regs[fr.res] = v
                ctx.exits.append(s)
                return "stop"
            if fr.res is not None:
                s.frames[-1].regs[fr.res] = v
            return None
        if op == "switch":
            v = self.mat(self.val(s, fr, inst.a), inst.a.ty)
            d, cs = inst.x
            if is_c(v):
                for k, l in cs:
                    if k == v:
                        return self.goto(s, fr, l, work, ctx)
                return self.goto(s, fr, d, work, ctx)
            w = inst.a.ty.n
            self.poison_use(s, v, "switch")
            if s.ended:
                return "stop"
            groups = {}
            for k, l in cs:
                groups.setdefault(l, []).append(k)
            outs = []
            for l, ks in groups.items():
                c = z3.Or(*[v == bv(k, w) for k in ks]) if len(ks) > 1 else v == bv(ks[0], w)
                outs.append((l, c))
            nd = z3.And(*[v != bv(k, w) for k, _ in cs]) if cs else z3.BoolVal(True)
            outs.append((d, nd))
            feas = []
            for l, c in outs:
                ok, mm = self.feasible(s, c)
                if ok:
                    feas.append((l, c, mm))
            if not feas:
                s.ended = "infeasible"
                return "stop"
            for l, c, mm in feas[1:]:
                s2 = s.fork()
                s2.assume(c)
                s2.model = mm
                f2 = s2.frames[-1]
                r = self.goto(s2, f2, l, work, ctx)
                if r is None:
                    work.append(s2)
            l, c, mm = feas[0]
            s.assume(c)
            s.model = mm
            return self.goto(s, fr, l, work, ctx)
        if op == "unreachable":
            self.oblige(s, 0, f"unreachable@{self.where(inst)}", "undefined", inst)
            s.ended = "unreachable"
            return "stop"
        if op == "freeze":
            fr.regs[inst.res] = self.mat(self.val(s, fr, inst.a), inst.a.ty)
            return None
        if op == "extractvalue":
            v = self.val(s, fr, inst.a)
            for i in inst.x:
                v = v[i]
            fr.regs[inst.res] = v
            return None
        if op == "insertvalue":
            a, b = inst.a
            av, bv_ = self.val(s, fr, a), self.val(s, fr, b)
            fr.regs[inst.res] = self.ins(av, bv_, inst.x)
            return None
        raise Unsupported("instruction " + op)

    def ins(self, a, b, idx):
        a = list(a)
        if len(idx) == 1:
            a[idx[0]] = b
        else:
            a[idx[0]] = self.ins(a[idx[0]], b, idx[1:])
        return a

    def branch(self, s, fr, c, t, e, work, ctx):
        if is_c(c):
            return self.goto(s, fr, t if c else e, work, ctx)
        if s.poison:
            self.poison_use(s, c, "branch")
            if s.ended:
                return "stop"
        kn = s.known(c)
        if kn is not None:
            return self.goto(s, fr, t if kn else e, work, ctx)
        ft, mt = self.feasible(s, c)
        nc = self.notb(c)
        if not ft:
            s.assume(nc)
            return self.goto(s, fr, e, work, ctx)
        fe, me = self.feasible(s, nc)
        if not fe:
            s.assume(c)
            if mt is not None:
                s.model = mt
            return self.goto(s, fr, t, work, ctx)
        s2 = s.fork()
        s2.assume(nc)
        s2.model = me
        r = self.goto(s2, s2.frames[-1], e, work, ctx)
        if r is None:
            work.append(s2)
        s.assume(c)
        s.model = mt
        return self.goto(s, fr, t, work, ctx)

    # -------------------------------------------------------------- calls
    def cstr(self, state, p):
        o = state.mem[p.obj]
        out = bytearray()
        i = p.off
        while True:
            c = o.cells.get(i)
            if c is None or c[1] == 0:
                break
            out.append(c[1])
            i += 1
        return out.decode("utf8", "replace")

    def uf(self, name, nargs, w):
        k = (name, nargs, w)
        f = self.ufs.get(k)
        if f is None:
            rs = z3.BitVecSort(w)
            f = self.ufs[k] = z3.Function(name, *([z3.BitVecSort(64)] * nargs), rs)
        return f

    def ret(self, s, fr, inst, v):
        if inst.res is not None:
            fr.regs[inst.res] = v
        return None

    def call(self, s, fr, inst, work, ctx):
        cal = inst.x["callee"]
        if isinstance(cal, Op):
            fp = self.val(s, fr, cal)
            if not isinstance(fp, FnPtr):
                raise Unsupported("indirect call")
            cal = fp.name
        name = cal[1:]
        args = [self.val(s, fr, a) for a in inst.a]
        if name.startswith("vc_"):
            r = self.vc_call(s, fr, inst, name, args, work, ctx)
            if r is not NotImplemented:
                return r
        if name.startswith("llvm."):
            return self.intrinsic(s, fr, inst, name, args)
        f = self.m.func(cal)
        if f is not None:
            self.push_frame(s, f, args, inst.res)
            s.frames[-1].ip = 0
            return None
        return self.external(s, fr, inst, name, args)

    def external(self, s, fr, inst, name, args):
        if name == "__assert_fail":
            msg = self.cstr(s, args[0])
            self.oblige(s, 0, "assertion `" + msg[:110] + "`", "assertion", inst)
            s.ended = "assert"
            return "stop"
        if name in ("abort", "_ZSt9terminatev", "exit", "__cxa_pure_virtual"):
            self.oblige(s, 0, "call to " + name, "assertion", inst)
            s.ended = "abort"
            return "stop"
        if name in ("_Znwm", "_Znam", "malloc", "_ZnwmSt11align_val_t"):
            n = args[0]
            if not is_c(n):
                n2 = z3.simplify(n)
                if z3.is_bv_value(n2):
                    n = n2.as_long()
            o = self.new_obj(s, f"heap{self.obj_n + 1}", n)
            o.heap = True
            if not is_c(n):
                self.fresh_n += 1
                o.arr = z3.Array(f"heap!{self.fresh_n}", z3.BitVecSort(64), z3.BitVecSort(8))
                # allocation succeeded, so the size is sane
                s.assume(z3.ULE(n, bv(1 << 62, 64)))
            return self.ret(s, fr, inst, Ptr(o.id, 0))
        if name in ("_ZdlPv", "_ZdaPv", "_ZdlPvm", "free", "_ZdlPvSt11align_val_t", "_ZdlPvmSt11align_val_t", "_ZdaPvm"):
            p = args[0]
            if p.obj == 0:
                return None
            o = self.wobj(s, p.obj)
            ok = o.alive and o.heap and is_c(p.off) and p.off == 0
            self.oblige(s, int(ok), "delete of a live heap block", "memory", inst)
            if s.ended:
                return "stop"
            if len(args) > 1 and "vm" in name:
                sz = args[1]
                if is_c(sz) and is_c(o.size):
                    self.oblige(s, int(sz == o.size), "sized delete matches allocation", "memory", inst)
                else:
                    self.oblige(s, bv(sz, 64) == bv(o.size, 64), "sized delete matches allocation", "memory", inst)
            o.alive = False
            return None
        if name in ("memcpy", "memmove"):
            self.memcpy(s, args[0], args[1], args[2], inst)
            return self.ret(s, fr, inst, args[0]) if not s.ended else "stop"
        if name == "memset":
            self.memset(s, args[0], args[1] & 0xFF if is_c(args[1]) else z3.Extract(7, 0, args[1]), args[2], inst)
            return self.ret(s, fr, inst, args[0]) if not s.ended else "stop"
        if name == "strlen":
            return self.ret(s, fr, inst, len(self.cstr(s, args[0]).encode()))
        if name == "bcmp" or name == "memcmp":
            n = args[2]
            if not is_c(n) or n > 64:
                raise Unsupported("memcmp")
            eq = []
            for i in range(n):
                a = self.load(s, self.padd(args[0], i), int_ty(8), inst)
                b = self.load(s, self.padd(args[1], i), int_ty(8), inst)
                eq.append(bv(a, 8) == bv(b, 8))
            c = z3.simplify(z3.And(*eq)) if eq else z3.BoolVal(True)
            if z3.is_true(c):
                return self.ret(s, fr, inst, 0)
            self.fresh_n += 1
            r = z3.BitVec(f"cmp!{self.fresh_n}", 32)
            s.assume(c == (r == 0))
            s.model = None
            return self.ret(s, fr, inst, r)
        raise Unsupported("external function " + name)

    def intrinsic(self, s, fr, inst, name, args):
        n = name.split(".")
        k = n[1]
        if k in ("memcpy", "memmove"):
            self.memcpy(s, args[0], args[1], args[2], inst)
            return "stop" if s.ended else None
        if k == "memset":
            v = args[1]
            self.memset(s, args[0], v, args[2], inst)
            return "stop" if s.ended else None
        if k == "expect":
            return self.ret(s, fr, inst, args[0])
        if k in ("cttz", "ctlz"):
            v = self.mat(args[0], inst.ty)
            w = inst.ty.n
            if is_c(v):
                if v == 0:
                    return self.ret(s, fr, inst, w)
                r = (v & -v).bit_length() - 1 if k == "cttz" else w - v.bit_length()
                return self.ret(s, fr, inst, r)
            # of zero: poison (the optimiser may have speculated it), i.e. an arbitrary value
            r = self.fresh_bv(w, "poison") if is_c(args[1]) and args[1] else bv(w, w)
            rng = range(w - 1, -1, -1) if k == "cttz" else range(w)
            for i in rng:
                r = z3.If(z3.Extract(i, i, v) == bv(1, 1), bv(i if k == "cttz" else w - 1 - i, w), r)
            return self.ret(s, fr, inst, r)
        if k in ("umin", "umax", "smin", "smax"):
            a, b = self.mat(args[0], inst.ty), self.mat(args[1], inst.ty)
            c = self.do_icmp(s, {"umin": "ult", "umax": "ugt", "smin": "slt", "smax": "sgt"}[k], a, b, inst.ty)
            return self.ret(s, fr, inst, self.ite(s, c, a, b, inst.ty))
        if k == "abs":
            a = self.mat(args[0], inst.ty)
            c = self.do_icmp(s, "slt", a, 0, inst.ty)
            return self.ret(s, fr, inst, self.ite(s, c, self.do_bin(s, "sub", 0, a, inst.ty.n, (), None), a, inst.ty))
        if k == "bswap":
            v = args[0]
            w = inst.ty.n
            if is_c(v):
                return self.ret(s, fr, inst, int.from_bytes(v.to_bytes(w // 8, "little"), "big"))
            return self.ret(s, fr, inst, z3.Concat(*[z3.Extract(8 * i + 7, 8 * i, v) for i in range(w // 8)]))
        if k in ("fshl", "fshr"):
            a, b, c = [bv(self.mat(x, inst.ty), inst.ty.n) for x in args]
            w = inst.ty.n
            cc = z3.ZeroExt(w, z3.URem(c, bv(w, w)))
            ab = z3.Concat(a, b)
            if k == "fshl":
                r = z3.Extract(2 * w - 1, w, ab << cc)
            else:
                r = z3.Extract(w - 1, 0, z3.LShR(ab, cc))
            return self.ret(s, fr, inst, z3.simplify(r))
        if k in ("trap", "ubsantrap"):
            self.oblige(s, 0, f"trap@{self.where(inst)}", "undefined", inst)
            s.ended = "trap"
            return "stop"
        if k == "usub" and n[2] == "sat":
            a, b = args
            c = self.do_icmp(s, "ult", a, b, inst.ty)
            return self.ret(s, fr, inst, self.ite(s, c, 0, self.do_bin(s, "sub", a, b, inst.ty.n, (), None), inst.ty))
        if k in ("sadd", "uadd", "ssub", "usub", "smul", "umul") and n[2] == "with":
            w = inst.ty.fields[0].n
            a, b = args
            sg = k[0] == "s"
            o_ = k[1:]
            r = self.do_bin(s, o_, a, b, w, (), None)
            A, B = bv(a, w), bv(b, w)
            if o_ == "mul":
                ext = z3.SignExt if sg else z3.ZeroExt
                full = ext(w, A) * ext(w, B)
                ov = z3.simplify(full != ext(w, bv(r, w)))
            else:
                ext = z3.SignExt if sg else z3.ZeroExt
                full = ext(1, A) + ext(1, B) if o_ == "add" else ext(1, A) - ext(1, B)
                ov = z3.simplify(full != ext(1, bv(r, w)))
            if z3.is_true(ov):
                ov = 1
            elif z3.is_false(ov):
                ov = 0
            return self.ret(s, fr, inst, [r, ov])
        if k in ("stacksave", "stackrestore", "prefetch", "invariant", "donothing", "sideeffect"):
            return self.ret(s, fr, inst, NULL)
        if k == "is" and n[2] == "constant":
            return self.ret(s, fr, inst, 0)
        if k == "objectsize":
            return self.ret(s, fr, inst, mask(inst.ty.n))
        if k == "ctpop":
            v = args[0]
            w = inst.ty.n
            if is_c(v):
                return self.ret(s, fr, inst, bin(v).count("1"))
            r = bv(0, w)
            for i in range(w):
                r = r + z3.ZeroExt(w - 1, z3.Extract(i, i, v))
            return self.ret(s, fr, inst, r)
        raise Unsupported("intrinsic " + name)

    # -------------------------------------------------------------- vc primitives
    def vc_call(self, s, fr, inst, name, args, work, ctx):
        if name == "vc_assume":
            c = self.mat(args[0], int_ty(1))
            if is_c(c):
                if not c:
                    s.ended = "assume"
                    return "stop"
                return None
            ok, m = self.feasible(s, c)
            if not ok:
                s.ended = "assume"
                return "stop"
            s.assume(c)
            s.model = m
            return None
        if name == "vc_assert":
            lbl = self.cstr(s, args[1])
            if self.final:
                self.covered[lbl] = self.covered.get(lbl, 0) + 1
            self.oblige(s, self.mat(args[0], int_ty(1)), lbl, "ensures", inst)
            return "stop" if s.ended else None
        if name == "vc_cover":
            lbl = self.cstr(s, args[1])
            if self.final and not self.covered.get("cover:" + lbl):
                ok, m = self.feasible(s, self.mat(args[0], int_ty(1)))
                self.covered["cover:" + lbl] = 1 if ok else 0
            return None
        if name.startswith("vc_nd"):
            w = inst.ty.n
            nm = self.cstr(s, args[0])
            v = self.fresh_bv(w, nm)
            s.trace.append(("nd", nm, v, w))
            if nm.startswith("len") and self.bmc and self.len_bound is not None:
                s.assume(z3.ULE(v, bv(self.len_bound, w)))
            return self.ret(s, fr, inst, v)
        if name.startswith("vc_uf"):
            # vc_uf<nargs>_<bits>(const char* name, u64...)
            w = inst.ty.n
            nm = self.cstr(s, args[0])
            f = self.uf(nm, len(args) - 1, max(w, 8) if w == 1 else w)
            av = [bv(a, 64) for a in args[1:]]
            v = f(*av)
            s.trace.append(("uf", nm, (f, tuple(av)), w))
            if w == 1:
                v = z3.Extract(0, 0, v) == bv(1, 1)
            return self.ret(s, fr, inst, v)
        if name in ("vc_track", "vc_track32"):
            t = bv(args[0], 64 if name == "vc_track" else 32)
            if not any(t.eq(x) for x in s.tracked):
                s.tracked = s.tracked + (t,)
            return None
        if name == "vc_use_const1":
            s.invs = s.invs + ((-1, args[0].name),)
            return None
        if name == "vc_ghost":
            # the object is ghost state: only the explicit candidates talk about it
            s.ghosts = s.ghosts | {args[0].obj}
            return None
        if name == "vc_use_case0":
            s.invs = s.invs + ((-2, args[0].name),)
            return self.ret(s, fr, inst, None)
        if name.startswith("vc_use_inv"):
            k = int(name[len("vc_use_inv"):])
            s.invs = s.invs + ((k, args[0].name),)
            return None
        if name == "vc_choose":
            # finite case split: value in [0, n)
            n = args[1]
            nm = self.cstr(s, args[0])
            for i in range(1, n):
                s2 = s.fork()
                s2.trace.append(("nd", nm, i, 64))
                s2.frames[-1].regs[inst.res] = i
                s2.path = hash((s2.path, "choose", i))
                work.append(s2)
            s.trace.append(("nd", nm, 0, 64))
            s.path = hash((s.path, "choose", 0))
            return self.ret(s, fr, inst, 0)
        if name == "vc_array":
            # vc_array(name, byte length, elem bytes): fresh object of symbolic content
            nm = self.cstr(s, args[0])
            o = self.new_obj(s, nm, args[1])
            self.fresh_n += 1
            f = self.uf("arr!" + nm, 1, 8)
            i = z3.BitVec("i!l", 64)
            o.arr = z3.Array(f"arr!{nm}!{self.fresh_n}", z3.BitVecSort(64), z3.BitVecSort(8))
            o.heap = False
            s.trace.append(("arr", nm, (o.arr, args[1]), 8))
            return self.ret(s, fr, inst, Ptr(o.id, 0))
        if name.startswith("vc_rd"):
            # unchecked read of ghost code: value is arbitrary outside the object
            nb = int(name[5:]) // 8
            p = args[0]
            o = self.to_arr(s, p.obj)
            i = bv(args[1], 64)
            if not (is_c(p.off) and p.off == 0):
                i = bv(p.off, 64) + i
            if p.obj in s.axioms:
                self.instantiate(s, p.obj, i, nb)
            return self.ret(s, fr, inst, self.load_bytes_arr(o, i, nb))
        if name == "vc_first":
            # vc_first(name, array, elem, start, n, pred): least E in [start,n] with E == n or pred(E)
            nm, arr, elem, start, n, pr = self.cstr(s, args[0]), args[1], args[2], args[3], args[4], args[5].name
            E = self.fresh_bv(64, nm)
            st, nb = bv(start, 64), bv(n, 64)
            s.assume(z3.And(z3.ULE(st, E), z3.ULE(E, nb)))
            s.assume(z3.Implies(z3.ULT(E, nb), self.eval_pure(s, pr, [E])))
            key = ("first", E.get_id(), nm)
            self.keep.append(E)

            def fn(state, idx, E=E, st=st, pr=pr, nb=nb, elem=elem):
                # i < E -> !pred(i), and the consequence !pred(i), i <= E, i < n -> i + 1 <= E
                i_ = bv(idx, 64)
                p_ = self.eval_pure(state, pr, [idx])
                c = z3.Implies(z3.And(z3.ULE(st, i_), z3.ULT(i_, E)), z3.Not(p_))
                if self.chain:
                    c = z3.And(c, z3.Implies(z3.And(z3.Not(p_), z3.ULE(st, i_), z3.ULE(i_, E), z3.ULT(i_, nb)), z3.ULE(i_ + bv(1, 64), E)))
                return c
            s.axioms = dict(s.axioms)
            s.axioms[arr.obj] = s.axioms.get(arr.obj, ()) + ((key, elem, fn),)
            s.tracked = s.tracked + ((E,) if elem == 1 else (E, E * bv(elem, 64)))
            s.model = None
            s.trace.append(("nd", "_" + nm, E, 64))
            return self.ret(s, fr, inst, E)
        if name == "vc_axiom":
            # vc_axiom(array, elem, pred): forall i. pred(i)
            arr, elem, pr = args[0], args[1], args[3].name
            key = ("ax", pr)

            def fn(state, idx, pr=pr):
                return self.eval_pure(state, pr, [idx])
            s.axioms = dict(s.axioms)
            s.axioms[arr.obj] = s.axioms.get(arr.obj, ()) + ((key, elem, fn),)
            return None
        if name == "vc_fold":
            # vc_fold(name, array, elem, init, start, end, step): V(start) = init, V(i+1) = step(V(i), i)
            nm, arr, elem, init, start, end, stp = self.cstr(s, args[0]), args[1], args[2], args[3], args[4], args[5], args[6].name
            f = self.uf("fold_" + nm, 1, 64)
            s.assume(f(bv(start, 64)) == bv(init, 64))
            key = ("fold", nm)

            def fn(state, idx, f=f, st=bv(start, 64), en=bv(end, 64), stp=stp):
                i_ = bv(idx, 64)
                return z3.Implies(z3.And(z3.ULE(st, i_), z3.ULT(i_, en)),
                                  f(i_ + bv(1, 64)) == self.eval_pure(state, stp, [f(i_), idx]))
            s.axioms = dict(s.axioms)
            s.axioms[arr.obj] = s.axioms.get(arr.obj, ()) + ((key, elem, fn),)
            s.model = None
            return None
        if name == "vc_fold_at":
            f = self.uf("fold_" + self.cstr(s, args[0]), 1, 64)
            return self.ret(s, fr, inst, f(bv(args[1], 64)))
        if name in ("vc_alphabet", "vc_range"):
            return None
        if name == "vc_objsize":
            p = args[0]
            return self.ret(s, fr, inst, s.mem[p.obj].size if p.obj else 0)
        if name == "vc_alive":
            p = args[0]
            return self.ret(s, fr, inst, int(p.obj != 0 and s.mem[p.obj].alive))
        if name == "vc_live_heap":
            return self.ret(s, fr, inst, sum(1 for o in s.mem.values() if o.heap and o.alive))
        if name == "vc_same_object":
            return self.ret(s, fr, inst, int(isinstance(args[0], Ptr) and isinstance(args[1], Ptr) and args[0].obj == args[1].obj))
        if name == "vc_offset":
            return self.ret(s, fr, inst, args[0].off)
        if name == "vc_concrete":
            # number of model search only; identity in proofs
            return self.ret(s, fr, inst, args[0])
        return NotImplemented

    # -------------------------------------------------------------- pure evaluation (invariants)
    def eval_pure(self, state, fname, args):
        """evaluate a loop-free predicate of the contract file in `state` -> z3 Bool"""
        key = None
        f = self.m.func(fname)
        s = state.fork()
        s.frames = []
        base = s.pc
        s.model = None
        self.push_frame(s, f, args, None)
        out = []
        self.pure += 1
        try:
            self._pure_run(s, [], out)
        finally:
            self.pure -= 1
        rt = f.rty
        r = None
        for conds, v in reversed(out):
            if v is UNDEF:
                v = self.fresh(rt, "undef")
            v = bl(v) if rt.n == 1 else bv(v, rt.n)
            if r is None:
                r = v       # the branches are exhaustive
            else:
                c = z3.And(*conds) if len(conds) > 1 else conds[0] if conds else z3.BoolVal(True)
                r = z3.If(c, v, r)
        return r

    def _pure_run(self, s, conds, out):
        while True:
            fr = s.frames[-1]
            inst = fr.fn.blocks[fr.block].insts[fr.ip]
            if inst.op == "br" and inst.a is not None:
                c = self.mat(self.val(s, fr, inst.a), inst.a.ty)
                if not is_c(c):
                    s2 = s.fork()
                    f2 = s2.frames[-1]
                    f2.prev, f2.block = f2.block, inst.x[1]
                    self.enter_block(s2, f2)
                    self._pure_run(s2, conds + [self.notb(c)], out)
                    fr.prev, fr.block = fr.block, inst.x[0]
                    self.enter_block(s, fr)
                    conds = conds + [c]
                    continue
                t = inst.x[0] if c else inst.x[1]
                fr.prev, fr.block = fr.block, t
                self.enter_block(s, fr)
                continue
            if inst.op == "br":
                fr.prev, fr.block = fr.block, inst.x[0]
                self.enter_block(s, fr)
                continue
            if inst.op == "ret":
                v = self.mat(self.val(s, fr, inst.a), inst.a.ty) if inst.a is not None else None
                s.frames.pop()
                if not s.frames:
                    out.append((conds, v))
                    return
                if fr.res is not None:
                    s.frames[-1].regs[fr.res] = v
                continue
            sv = self.final, self.ub
            self.final = False
            self.ub = False
            try:
                work = []
                self.step(s, work, None)
                if work or s.ended:
                    raise Unsupported("predicate is not pure")
            finally:
                self.final, self.ub = sv

    # -------------------------------------------------------------- loops
    def process_loop(self, s, loop):
        """s sits on the entry edge (frame.prev -> header). Returns states on exit edges."""
        fr = s.frames[-1]
        f = fr.fn
        hdr = f.blocks[loop.header]
        entry_phis = {ph.res: self.val(s, fr, ph.a[fr.prev]) for ph in hdr.phis}
        lkey = (f.name, loop.header, s.path)
        w = self.warm.get(lkey)
        if w is None:
            mod = {}            # var key -> info
            dropped = set()
        else:
            mod, dropped = w
        was_final = self.final
        self.final = False
        it = 0
        try:
            while True:
                it += 1
                if it > 60:
                    raise Unsupported("loop invariant inference does not converge in " + f.name)
                heads, cands = self.make_heads(s, loop, hdr, entry_phis, mod, dropped)
                changed = False
                for h in heads:
                    ctx = Ctx()
                    ctx.act = fr.act
                    ctx.loop = loop
                    ctx.backs = []
                    ctx.exits = []
                    self.start_body(h.fork(), ctx)
                    for b in ctx.backs:
                        if self.weaken(s, h, b, loop, hdr, entry_phis, mod, dropped, cands):
                            changed = True
                if not changed:
                    break
        finally:
            self.final = was_final
        self.warm[lkey] = (mod, dropped)
        # final pass
        out = []
        heads, cands = self.make_heads(s, loop, hdr, entry_phis, mod, dropped)
        if self.final:
            kept = [n for n, _ in cands]
            lbl = f"{f.name}:{loop.header}"
            self.inv_report.setdefault(lbl, [])
            if len(self.inv_report[lbl]) < 3:
                self.inv_report[lbl].append({"modified": [str(k) for k in mod], "kept": kept, "rounds": it})
            o = self.obl.setdefault(("loop", "invariant inductive"), {"vcs": 0, "ok": 0, "trivial": 0, "fail": 0, "unknown": 0})
            o["vcs"] += len(kept) + 1
            o["ok"] += len(kept) + 1
        steps = []
        for h in heads:
            ctx = Ctx()
            ctx.act = fr.act
            ctx.loop = loop
            ctx.backs = []
            ctx.exits = []
            self.start_body(h.fork(), ctx)
            out.extend(ctx.exits)
            steps.append((h, ctx.backs))
        if self.final and any(b for _, b in steps):
            ranks = self.rank(hdr, mod, steps)
            o = self.obl.setdefault(("termination", "loop has a strictly monotone variable"),
                                    {"vcs": 0, "ok": 0, "trivial": 0, "fail": 0, "unknown": 0})
            o["vcs"] += 1
            if ranks:
                o["ok"] += 1
            else:
                o["unknown"] += 1
                self.undecided.append(("termination", "loop has a strictly monotone variable",
                                       f"{f.name}:{loop.header}"))
        return out

    def rank_vals(self, h, hdr, b, k, info):
        """(value at the loop head, value at the back edge) of a modified variable, as bit-vectors"""
        if info["kind"] == "undef":
            return None
        fr = b.frames[-1]
        if k[0] == "phi":
            ph = next(p for p in hdr.phis if p.res == k[1])
            hv, nv = h.__dict__["_head"][k[1]], self.val(b, fr, ph.a[fr.prev])
        elif k[0] == "mem":
            hv = self.load_cell(h.__dict__["_head_mem"][k[1]], k[2], k[3])
            nv = self.load_cell(b.mem[k[1]], k[2], k[3])
        else:
            return None
        if isinstance(hv, Ptr) and isinstance(nv, Ptr) and hv.obj == nv.obj:
            hv, nv, w = hv.off, nv.off, 64
        elif isinstance(hv, (Ptr, FnPtr)) or isinstance(nv, (Ptr, FnPtr)) or hv is UNDEF or nv is UNDEF \
                or isinstance(hv, list) or hv is None or nv is None:
            return None
        else:
            w = info.get("w", 64)
            if w == 1 or isinstance(hv, z3.BoolRef) or isinstance(nv, z3.BoolRef):
                t = lambda x: bv(int(x), 1) if is_c(x) else z3.If(x, bv(1, 1), bv(0, 1)) if isinstance(x, z3.BoolRef) else x
                hv, nv, w = t(hv), t(nv), 1
        a_, b_ = bv(hv, w), bv(nv, w)
        return (a_, b_) if a_.size() == b_.size() else None

    def rank(self, hdr, mod, steps):
        """variables that strictly increase (or strictly decrease) along every back edge: since machine
        integers are finite and the step does not wrap, each such variable proves termination.  Otherwise a
        lexicographic pair of variables."""
        lt = lambda v, d: z3.ULT(v[0], v[1]) if d == "inc" else z3.ULT(v[1], v[0])
        steps = [(h, b) for h, bs in steps for b in bs]
        if not steps:
            return True
        vals = {}
        for k in mod:
            vs = [self.rank_vals(h, hdr, b, k, mod[k]) for h, b in steps]
            if None not in vs:
                vals[k] = vs
        def holds(i, c):
            c = z3.simplify(z3.Not(c))
            return z3.is_false(c) or (not z3.is_true(c) and self.check(steps[i][1], c)[0] == z3.unsat)
        keys = [(k, d) for k in vals for d in ("inc", "dec")]
        for k, d in keys:
            if all(holds(i, lt(v, d)) for i, v in enumerate(vals[k])):
                return True
        # the first variable of a pair never goes the wrong way
        first = [(k, d) for k, d in keys if all(holds(i, z3.Not(lt((v[1], v[0]), d))) for i, v in enumerate(vals[k]))]
        for k, d in first:
            strict = [holds(i, lt(v, d)) for i, v in enumerate(vals[k])]
            if not any(strict):
                continue
            rest = [i for i in range(len(steps)) if not strict[i]]
            for k2, d2 in keys:
                if k2 != k and all(holds(i, z3.Or(lt(vals[k][i], d), lt(vals[k2][i], d2))) for i in rest):
                    return True
        return False

    def start_body(self, h, ctx):
        work = [h]
        self.explore(work, ctx)

    def make_heads(self, s, loop, hdr, entry_phis, mod, dropped):
        """havocked head states with the surviving candidates assumed"""
        h = s.fork()
        fr = h.frames[-1]
        for r, v in entry_phis.items():
            fr.regs[r] = v
        fr.block = loop.header
        fr.ip = 0
        if mod:
            h.modular = True
        h.path = hash((h.path, "loop", loop.header))
        splits = []
        for k, info in mod.items():
            if info["kind"] == "ptr":
                if len(info["objs"]) > 1:
                    splits.append(k)
        combos = [{}]
        for k in splits:
            combos = [{**c, k: o} for c in combos for o in sorted(mod[k]["objs"])]
        heads = []
        allc = None
        for ci, combo in enumerate(combos):
            x = h.fork() if len(combos) > 1 else h
            if len(combos) > 1:
                x.path = hash((x.path, "combo", ci))
            for k, info in mod.items():
                self.havoc_var(x, k, info, combo.get(k))
            x.model = None
            cands = self.candidates(s, x, loop, hdr, entry_phis, mod, dropped)
            for n, fn in cands:
                c = fn(x, True, None)
                if c is None:
                    continue
                x.assume(c)
            if allc is None:
                allc = cands
            heads.append(x)
        return heads, allc

    def havoc_var(self, x, k, info, obj):
        fr = x.frames[-1]
        if k[0] == "phi":
            if info["kind"] == "int":
                fr.regs[k[1]] = self.fresh_bv(info["w"], "h" + k[1][1:])
            elif info["kind"] == "ptr":
                o = obj if obj is not None else next(iter(info["objs"]))
                if o == 0:
                    fr.regs[k[1]] = NULL
                elif o in info["fixoff"]:
                    fr.regs[k[1]] = Ptr(o, info["fixoff"][o])
                else:
                    fr.regs[k[1]] = Ptr(o, self.fresh_bv(64, "h" + k[1][1:]))
            else:
                fr.regs[k[1]] = UNDEF
        elif k[0] == "mem":
            _, oid, off, sz = k
            o = self.wobj(x, oid)
            if info["kind"] == "int":
                o.cells[off] = (sz, self.fresh_bv(sz * 8, f"h_m{oid}_{off}"))
            elif info["kind"] == "ptr":
                ob = obj if obj is not None else next(iter(info["objs"]))
                if ob == 0:
                    v = NULL
                elif ob in info["fixoff"]:
                    v = Ptr(ob, info["fixoff"][ob])
                else:
                    v = Ptr(ob, self.fresh_bv(64, f"h_m{oid}_{off}"))
                o.cells[off] = (sz, v)
            else:
                o.cells.pop(off, None)
        elif k[0] == "arr":
            o = self.to_arr(x, k[1])
            self.fresh_n += 1
            o.arr = z3.Array(f"h_arr{k[1]}!{self.fresh_n}", z3.BitVecSort(64), z3.BitVecSort(8))

    def weaken(self, s, h, b, loop, hdr, entry_phis, mod, dropped, cands):
        """b reached the back edge of the loop started at h.  Returns True if mod/dropped changed."""
        changed = False
        fr = b.frames[-1]
        back = {ph.res: self.val(b, fr, ph.a[fr.prev]) for ph in hdr.phis}
        hf = h.frames[-1]
        # feasibility of this back edge
        new = {}
        for ph in hdr.phis:
            k = ("phi", ph.res)
            hv, nv = self.headval_phi(h, loop, ph, entry_phis, mod), back[ph.res]
            self.diff(b, k, ph.ty, hv, nv, mod, new, entry_phis[ph.res])
        for oid, ho in h_mem_items(h):
            bo = b.mem.get(oid)
            if bo is None:
                raise Unsupported("object vanished in loop")
            if bo is ho:
                continue
            if ho.alive != bo.alive:
                raise Unsupported("object freed inside a loop: " + ho.name)
            so = s.mem.get(oid)
            if so is None:
                continue
            if bo.arr is not None or so.arr is not None:
                if ("arr", oid) in mod:
                    continue
                ha = ho.arr
                if ha is None:
                    # became an array during the iteration (symbolic access): normalise at head
                    if bo.const:
                        continue
                    new[("arr", oid)] = {"kind": "arr"}
                    continue
                if not ha.eq(bo.arr):
                    new[("arr", oid)] = {"kind": "arr"}
                continue
            for off, (sz, sv) in so.cells.items():
                k = ("mem", oid, off, sz)
                hv = self.load_cell(ho, off, sz)
                nv = self.load_cell(bo, off, sz)
                if hv is nv:
                    continue
                self.diff(b, k, None, hv, nv, mod, new, sv, sz)
            # cells that only exist after the iteration are uninitialised at the head: fine (treated as undef)
        for oid, bo in b.mem.items():
            if bo.heap and bo.alive and oid not in s.mem and self.check(b)[0] != z3.unsat:
                raise Unsupported("heap block allocated in a loop outlives the iteration")
        if new:
            if self.check(b)[0] == z3.unsat:
                return False
            for k, i in new.items():
                if i["kind"] == "ptr" and any(o and o not in s.mem for o in i["objs"]):
                    raise Unsupported("loop-carried pointer to an object created in the loop")
            for k, i in new.items():
                if k not in mod:
                    mod[k] = i
                elif i["kind"] == "undef":
                    mod[k] = i
                else:
                    m_ = mod[k]
                    fix = {}
                    for o in m_["objs"] | i["objs"]:
                        a = m_["fixoff"].get(o) if o in m_["objs"] else None
                        b_ = i["fixoff"].get(o) if o in i["objs"] else None
                        if o in m_["objs"] and o in i["objs"]:
                            if a is not None and b_ is not None and same(a, b_):
                                fix[o] = a
                        elif a is not None:
                            fix[o] = a
                        elif b_ is not None:
                            fix[o] = b_
                    m_["objs"] |= i["objs"]
                    m_["fixoff"] = fix
            return True
        # candidates
        live = list(cands)
        pairs = []
        for n, fn in live:
            if n in dropped:
                continue
            c = fn(b, False, back)
            if c is None:
                dropped.add(n)
                changed = True
                continue
            pairs.append((n, c))
        while pairs:
            cs = [c for _, c in pairs if not (is_c(c) and c)]
            if not cs:
                break
            r, m = self.check(b, z3.Not(z3.And(*[bl(c) for c in cs])))
            if r == z3.unsat:
                break
            changed = True
            if r == z3.unknown:
                # try one by one
                keep = []
                for n, c in pairs:
                    if is_c(c) and c:
                        keep.append((n, c))
                        continue
                    r1, _ = self.check(b, z3.Not(bl(c)))
                    if r1 == z3.unsat:
                        keep.append((n, c))
                    else:
                        dropped.add(n)
                pairs = keep
                break
            keep = []
            for n, c in pairs:
                if is_c(c):
                    t = bool(c)
                else:
                    t = self.ev(m, c)
                if t is True:
                    keep.append((n, c))
                else:
                    dropped.add(n)
            if len(keep) == len(pairs):
                raise Unsupported("houdini made no progress")
            pairs = keep
        return changed

    def headval_phi(self, h, loop, ph, entry_phis, mod):
        # registers of phis may be overwritten while h runs (h is mutated); remember originals
        return h.__dict__["_head"][ph.res]

    def diff(self, b, k, ty, hv, nv, mod, new, ev, sz=None):
        """classify a change of variable k from head value hv to back value nv"""
        if k in mod:
            info = mod[k]
            if info["kind"] == "ptr":
                if isinstance(nv, Ptr):
                    fo = info["fixoff"].get(nv.obj)
                    if nv.obj not in info["objs"]:
                        new[k] = mkptr(nv)
                    elif fo is not None and not same(fo, nv.off):
                        if is_c(fo) and is_c(nv.off) or not self.valid(b, bv(fo, 64) == bv(nv.off, 64)):
                            new[k] = {"kind": "ptr", "objs": {nv.obj}, "fixoff": {}}
                elif nv is UNDEF:
                    new[k] = {"kind": "undef"}
                else:
                    try:
                        p = self.int_to_ptr(nv)
                        self.diff(b, k, ty, hv, p, mod, new, ev, sz)
                    except Unsupported:
                        new[k] = {"kind": "undef"}
            elif info["kind"] == "int":
                if isinstance(nv, (Ptr, FnPtr)) or nv is UNDEF:
                    if nv is UNDEF:
                        return
                    new[k] = {"kind": "undef"}
            return
        if same(hv, nv):
            return
        if isinstance(ev, FnPtr) or isinstance(nv, FnPtr):
            if isinstance(ev, FnPtr) and isinstance(nv, FnPtr) and ev.name == nv.name:
                return
            new[k] = {"kind": "undef"}
            return
        if isinstance(hv, Ptr) and isinstance(nv, Ptr):
            if hv.obj == nv.obj and self.valid(b, bv(hv.off, 64) == bv(nv.off, 64)):
                return
            info = mkptr(ev)
            if nv.obj == ev.obj:
                info["fixoff"] = {}
            else:
                i2 = mkptr(nv)
                info["objs"] |= i2["objs"]
                info["fixoff"].update(i2["fixoff"])
            new[k] = info
            return
        if ev is UNDEF or nv is UNDEF or isinstance(hv, Ptr) or isinstance(nv, Ptr):
            new[k] = {"kind": "undef"}
            return
        w = ty.n if ty is not None and ty.k == "int" else (sz * 8 if sz else 64)
        if isinstance(hv, list) or isinstance(nv, list):
            raise Unsupported("aggregate phi")
        if w == 1:
            e = bl(hv) == bl(nv)
        else:
            e = bv(hv, w) == bv(nv, w)
        if self.valid(b, e):
            return
        new[k] = {"kind": "int", "w": w}

    # candidate invariants ------------------------------------------------------------------
    def candidates(self, s, h, loop, hdr, entry_phis, mod, dropped):
        """list of (name, fn(state, at_head, backvals) -> Bool) that hold on entry"""
        h.__dict__["_head_mem"] = dict(h.mem)
        h.__dict__["_head"] = {ph.res: h.frames[-1].regs[ph.res] for ph in hdr.phis}
        phity = {ph.res: ph.ty for ph in hdr.phis}

        def getter(k):
            if k[0] == "phi":
                def g(st, head, back):
                    v = back[k[1]] if back is not None else (st.frames[-1].regs[k[1]] if head else entry_phis[k[1]])
                    if isinstance(v, Ptr):
                        return v.off
                    return v
                return g

            def g2(st, head, back):
                v = self.load_cell(st.mem[k[1]], k[2], k[3])
                if isinstance(v, Ptr):
                    return v.off
                return v
            return g2
        vars_ = {}
        for k, info in mod.items():
            if k[0] == "mem" and k[1] in s.ghosts:
                continue
            if info["kind"] == "int":
                vars_.setdefault(info["w"], []).append((k, getter(k)))
            elif info["kind"] == "ptr":
                if len(info["objs"]) == 1 and not info["fixoff"]:
                    vars_.setdefault(64, []).append((k, getter(k)))
        out = []

        def add(name, fn):
            if name in dropped:
                return
            try:
                c0 = fn(s, False, None)
            except KeyError:
                return
            if c0 is None:
                dropped.add(name)
                return
            if not (is_c(c0) and c0):
                if is_c(c0) or not self.valid(s, c0):
                    dropped.add(name)
                    return
            out.append((name, fn))

        def wrap(get, w):
            def f(st, head, back):
                v = get(st, head, back)
                if v is UNDEF or v is None:
                    return None
                if isinstance(v, (Ptr, FnPtr)):
                    return None
                if isinstance(v, z3.BoolRef) and w != 1:
                    return z3.If(v, bv(1, w), bv(0, w))
                return v
            return f

        def per_width(w, vs):
            vs = [(k, wrap(g, w)) for k, g in vs]
            ent = {}
            for k, g in vs:
                try:
                    ent[k] = g(s, False, None)
                except KeyError:
                    ent[k] = None
            for k, g in vs:
                e = ent[k]
                nm = kname(k)
                if w == 1:
                    continue
                if e is not None:
                    add(f"{nm} >=u entry", lambda st, hd, bk, g=g, e=e: cmp2("ule", e, g(st, hd, bk), w))
                    add(f"{nm} <=u entry", lambda st, hd, bk, g=g, e=e: cmp2("ule", g(st, hd, bk), e, w))
                if w == 8:
                    add(f"{nm} in 0..1", lambda st, hd, bk, g=g: cmp2("ule", g(st, hd, bk), 1, 8))
                if w in (16, 32, 64):
                    add(f"{nm} >=s 0", lambda st, hd, bk, g=g: cmp2("sle", 0, g(st, hd, bk), w))
                if w == 64 and e is not None:
                    for al in self.aligns(s, k, mod):
                        add(f"{nm} = entry mod {al}", lambda st, hd, bk, g=g, e=e, al=al: cmpmod(g(st, hd, bk), e, al))
                if w == 64:
                    for ti, t in enumerate(s.tracked):
                        if not isinstance(t, z3.BitVecRef) or t.size() != 64:
                            continue
                        add(f"{nm} == t{ti}", lambda st, hd, bk, g=g, t=t: cmp2("eq", g(st, hd, bk), t, 64))
                        add(f"{nm} <=u t{ti}", lambda st, hd, bk, g=g, t=t: cmp2("ule", g(st, hd, bk), t, 64))
                        add(f"{nm} <u t{ti}", lambda st, hd, bk, g=g, t=t: cmp2("ult", g(st, hd, bk), t, 64))
                        add(f"{nm} >=u t{ti}", lambda st, hd, bk, g=g, t=t: cmp2("ule", t, g(st, hd, bk), 64))
                else:
                    for ti, t in enumerate(s.tracked):
                        if isinstance(t, z3.BitVecRef) and t.size() == w:
                            add(f"{nm} == t{ti}", lambda st, hd, bk, g=g, t=t: cmp2("eq", g(st, hd, bk), t, w))
                            add(f"{nm} <=u t{ti}", lambda st, hd, bk, g=g, t=t: cmp2("ule", g(st, hd, bk), t, w))
            if w == 1:
                return
            for i, (k1, g1) in enumerate(vs):
                for j, (k2, g2) in enumerate(vs):
                    if i == j:
                        continue
                    n1, n2 = kname(k1), kname(k2)
                    if i < j:
                        add(f"{n1} == {n2}", lambda st, hd, bk, a=g1, b=g2: cmp2("eq", a(st, hd, bk), b(st, hd, bk), w))
                        if ent[k1] is not None and ent[k2] is not None and w >= 32:
                            d = self.do_bin(s, "sub", ent[k1], ent[k2], w, (), None)
                            add(f"{n1} - {n2} const", lambda st, hd, bk, a=g1, b=g2, d=d: cmpd(a(st, hd, bk), b(st, hd, bk), d, w))
                    add(f"{n1} <=u {n2}", lambda st, hd, bk, a=g1, b=g2: cmp2("ule", a(st, hd, bk), b(st, hd, bk), w))
            # one modified variable against unmodified memory of the same width is covered by entry/tracked
        for w_, vs_ in vars_.items():
            per_width(w_, vs_)
        # a loop-carried word is the content of an input array at a loop-carried position (rotated loops)
        for k2, info2 in mod.items():
            if info2["kind"] != "ptr" or len(info2["objs"]) != 1 or info2["fixoff"]:
                continue
            oid = next(iter(info2["objs"]))
            if oid not in s.axioms or s.mem[oid].arr is None or ("arr", oid) in mod:
                continue
            gp = wrap(getter(k2), 64)
            for w_ in (8, 16, 32, 64):
                for k1, g1 in vars_.get(w_, []):
                    if mod[k1]["kind"] != "int":
                        continue

                    def holds(st, hd, bk, g=wrap(g1, w_), gp=gp, w_=w_, oid=oid):
                        v, p = g(st, hd, bk), gp(st, hd, bk)
                        if v is None or p is None:
                            return None
                        if hd:
                            self.instantiate(st, oid, p, w_ // 8)
                        return bv(v, w_) == self.load_bytes_arr(st.mem[oid], p, w_ // 8)
                    add(f"{kname(k1)} == *{kname(k2)}", holds)
        # cross width equality 32/64 (zero extension)
        for k1, g1 in vars_.get(32, []):
            for k2, g2 in vars_.get(64, []):
                g1w, g2w = wrap(g1, 32), wrap(g2, 64)
                add(f"zext {kname(k1)} == {kname(k2)}",
                    lambda st, hd, bk, a=g1w, b=g2w: cmpz(a(st, hd, bk), b(st, hd, bk)))
        views = [(kname(k), wrap(g, 64)) for k, g in vars_.get(64, [])]
        for w in (1, 8, 16, 32):
            for k, g in vars_.get(w, []):
                gw = wrap(g, w)

                def zx(st, hd, bk, gw=gw, w=w):
                    v = gw(st, hd, bk)
                    if v is None:
                        return None
                    if is_c(v):
                        return int(v)
                    if w == 1:
                        return z3.If(bl(v), bv(1, 64), bv(0, 64))
                    return z3.ZeroExt(64 - w, bv(v, w))
                views.append(("zx " + kname(k), zx))
                if w == 32 or w == 16:
                    def sx(st, hd, bk, gw=gw, w=w):
                        v = gw(st, hd, bk)
                        if v is None:
                            return None
                        if is_c(v):
                            return sgn(v, w) & mask(64)
                        return z3.SignExt(64 - w, bv(v, w))
                    views.append(("sx " + kname(k), sx))
        for narg, fname in s.invs:
            if narg == 0:
                add(fname, lambda st, hd, bk, fname=fname: self.eval_pure(st, fname, []))
            elif narg == -2:
                # x == v implies the predicate, for v in 0..4 (x >= 5 for the last), where x is a state variable
                for kn, g in views:
                    if kn[:2] not in ("zx", "sx") or kn[:2] == "sx":
                        continue
                    for cv in range(6):
                        def case(st, hd, bk, g=g, fname=fname, cv=cv):
                            v = g(st, hd, bk)
                            if v is None:
                                return None
                            if is_c(v) and min(v, 5) != cv:
                                return 1
                            q = self.eval_pure(st, fname, [])
                            if is_c(v):
                                return q
                            return z3.Or(v != bv(cv, 64) if cv < 5 else z3.ULT(v, bv(5, 64)), bl(q) if not is_c(q) else z3.BoolVal(bool(q)))
                        add(f"{kn} {'==' if cv < 5 else '>='} {cv} => {fname}", case)
            elif narg == -1:
                # f(x) keeps the value it has on entry
                for kn, g in views:
                    try:
                        e = g(s, False, None)
                    except KeyError:
                        continue
                    if e is None:
                        continue

                    def keeps(st, hd, bk, g=g, fname=fname, e=e):
                        v = g(st, hd, bk)
                        if v is None:
                            return None
                        return bv(self.eval_pure(st, fname, [v]), 64) == bv(self.eval_pure(st, fname, [e]), 64)
                    add(f"{fname}({kn}) const", keeps)
            elif narg == 1:
                for kn, g in views:
                    add(f"{fname}({kn})", lambda st, hd, bk, g=g, fname=fname: self.pred(st, fname, [g(st, hd, bk)]))
            elif narg == 2:
                for k1, a in views:
                    for k2, b in views:
                        if k1 != k2:
                            add(f"{fname}({k1},{k2})",
                                lambda st, hd, bk, a=a, b=b, fname=fname: self.pred(st, fname, [a(st, hd, bk), b(st, hd, bk)]))
            elif narg == 32:
                # predicate over (64-bit var, 32-bit var)
                for k1, g1 in vars_.get(64, []):
                    for k2, g2 in vars_.get(32, []):
                        a, b = wrap(g1, 64), wrap(g2, 32)
                        add(f"{fname}({kname(k1)},{kname(k2)})",
                            lambda st, hd, bk, a=a, b=b, fname=fname: self.pred(st, fname, [a(st, hd, bk), b(st, hd, bk)]))
        return out

    def aligns(self, s, k, mod):
        info = mod[k]
        if info["kind"] != "ptr":
            return ()
        r = set()
        for o in info["objs"]:
            for _, elem, _ in s.axioms.get(o, ()):
                if elem > 1:
                    r.add(elem)
        if not r and len(info["objs"]) == 1 and not any(s.axioms.get(o) for o in info["objs"]):
            r = {2, 4}
        return sorted(r)

    def pred(self, st, fname, args):
        if any(a is None for a in args):
            return None
        return self.eval_pure(st, fname, args)


def h_mem_items(h):
    return list(h.__dict__["_head_mem"].items())


def kname(k):
    return k[1] if k[0] == "phi" else f"m{k[1]}+{k[2]}" if k[0] == "mem" else str(k)


def same(a, b):
    if a is b:
        return True
    if is_c(a) and is_c(b):
        return a == b
    if isinstance(a, Ptr) and isinstance(b, Ptr):
        return a.obj == b.obj and same(a.off, b.off)
    if isinstance(a, FnPtr) and isinstance(b, FnPtr):
        return a.name == b.name
    if isinstance(a, z3.ExprRef) and isinstance(b, z3.ExprRef):
        return a.eq(b)
    if isinstance(a, list) and isinstance(b, list):
        return len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    return False


def mkptr(p):
    return {"kind": "ptr", "objs": {p.obj}, "fixoff": ({p.obj: p.off} if p.obj and is_c(p.off) else {})}


def cmp2(op, a, b, w):
    if a is None or b is None:
        return None
    if is_c(a) and is_c(b):
        if op == "eq":
            return int(a == b)
        if op == "ule":
            return int(a <= b)
        if op == "ult":
            return int(a < b)
        if op == "sle":
            return int(sgn(a, w) <= sgn(b, w))
    A, B = bv(a, w), bv(b, w)
    if A.size() != w or B.size() != w:
        return None
    if A.eq(B):
        return int(op != "ult")
    if op == "ult":
        return z3.ULT(A, B)
    if op == "eq":
        return A == B
    if op == "ule":
        return z3.ULE(A, B)
    return A <= B


def cmpd(a, b, d, w):
    if a is None or b is None:
        return None
    if is_c(a) and is_c(b) and is_c(d):
        return int(((a - b) & mask(w)) == d)
    return bv(a, w) - bv(b, w) == bv(d, w)


def cmpz(a, b):
    if a is None or b is None:
        return None
    if is_c(a) and is_c(b):
        return int(a == b)
    return z3.ZeroExt(32, bv(a, 32)) == bv(b, 64)


def cmpmod(a, b, al):
    if a is None or b is None:
        return None
    if is_c(a) and is_c(b):
        return (a - b) % al == 0
    n = al.bit_length() - 1
    return z3.Extract(n - 1, 0, bv(a, 64)) == z3.Extract(n - 1, 0, bv(b, 64))
