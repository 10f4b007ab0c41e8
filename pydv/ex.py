"""pydv executor: symbolic execution of the Python source found in /repo (parsed on every run).

Loops over symbolic sequences are cut by an induction rule: the body is executed once for an arbitrary
iteration i with every location it modifies replaced by a placeholder; the per-iteration effect on each
location must be v -> v (+) g(i) for a monoid (list concatenation, numeric sum, or/and, dict update log) or an
overwrite v -> g(i), with g free of v.  The state before iteration i is then the fold of g over 0..i-1.
"""
import ast
import builtins
import copy as _copy
import functools
import inspect
import itertools
import math
import os
import types
import typing
from collections import Counter, OrderedDict, defaultdict
from .values import *  # noqa
from .values import z3, Fraction

REPO = os.environ.get("PYDV_REPO", "/repo")
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


class ReturnEx(Exception):
    def __init__(self, v):
        self.v = v


class BreakEx(Exception):
    pass


class ContinueEx(Exception):
    pass


class Func:
    def __init__(self, node, frame, glob, name, defaults=(), kwdefaults=None, owner=None, file=""):
        self.node, self.frame, self.glob, self.name = node, frame, glob, name
        self.defaults, self.kwdefaults, self.owner, self.file = defaults, kwdefaults or {}, owner, file

    def __repr__(self):
        return f"<Func {self.name}>"


class BM:
    """bound method / builtin with receiver"""

    def __init__(self, self_, fn, name):
        self.self, self.fn, self.name = self_, fn, name

    def __repr__(self):
        return f"<BM {self.name}>"


class Bi:
    """builtin implemented by the executor: fn(ex, args, kwargs)"""

    def __init__(self, fn, name):
        self.fn, self.name = fn, name

    def __repr__(self):
        return f"<Bi {self.name}>"


class SuperProxy:
    def __init__(self, self_, cls):
        self.self, self.cls = self_, cls


class Frame:
    def __init__(self, fid, parent, glob, name, cls=None):
        self.fid, self.parent, self.glob, self.name, self.cls = fid, parent, glob, name, cls
        self.nonlocal_, self.global_, self.locals_ = set(), set(), None
        self.first = None
        self.yields = None


class Decider:
    def __init__(self, prefix, work):
        self.prefix, self.work, self.pos, self.taken = prefix, work, 0, []


class Path:
    def __init__(self, pc, kind, val, snap):
        self.pc, self.kind, self.val, self.snap = pc, kind, val, snap


_ast_cache = {}
SRC_USED = {}


def file_ast(path):
    if path not in _ast_cache:
        src = open(path).read()
        tree = ast.parse(src)
        idx = {}
        for n in ast.walk(tree):
            if isinstance(n, (ast.FunctionDef, ast.Lambda)):
                ln = n.lineno
                if isinstance(n, ast.FunctionDef) and n.decorator_list:
                    ln = n.decorator_list[0].lineno
                idx.setdefault((ln, getattr(n, "name", "<lambda>")), n)
        _ast_cache[path] = idx
    return _ast_cache[path]


MODELS = {}  # raw python object -> fn(ex, args, kwargs)
METHODS = {}  # (opaque type, method) -> fn(ex, self, args, kwargs)
ATTRS = {}  # (opaque type, attribute) -> fn(ex, self)
CLASSES = {}  # opaque type tag -> real class (for isinstance)
CONTRACTS = {}  # raw function object -> fn(ex, args, kwargs): assumed contract of a callee verified elsewhere


def model(*objs):
    def deco(f):
        for o in objs:
            MODELS[o] = f
        return f

    return deco


class Ex:
    MAXUNROLL = 400

    def __init__(self, timeout=4000, bounded=False):
        self.heap, self.frames = {}, {}
        self.freezing, self.thawed = set(), set()
        self.nid = 0
        self.pc = []
        self.axioms = []
        self.dstack = []
        self.idx = []  # enclosing loop indices
        self.binders = {}  # canonical key -> info
        self.binfo = {}  # decl name -> info
        self.consts = {}  # raw object -> U const
        self.constlist = []
        self.timeout = timeout
        self.bounded = bounded
        self.inexact = False
        self.stats = {"sat": 0, "loops": 0, "paths": 0, "solver_s": 0.0}
        self.trusted = set()
        self.lookups = []
        self.functions = set()
        self.depth = 0
        self.cache = {}
        self.curline = ""
        self.idxconsts = {}
        self.divused = False
        self.facts = {}
        self.bound = 2
        self.obligations = []
        self.last_model = None
        self.last_exact = True

    # ------------------------------------------------------------------ fresh names
    def uid(self):
        self.nid += 1
        return self.nid

    def fresh_idx(self, name="i"):
        c = z3.Int(f"{name}!{self.uid()}")
        self.idxconsts[c.get_id()] = c
        return c

    def skolem(self, name, sort):
        """fresh function of the enclosing loop indices"""
        nm = f"{name}!{self.uid()}"
        if not self.idx:
            return z3.Const(nm, sort)
        f = z3.Function(nm, *[z3.IntSort()] * len(self.idx), sort)
        return f(*self.idx)

    def const(self, raw):
        key = raw
        try:
            hash(raw)
        except TypeError:
            key = ("id", id(raw))
        key = (type(raw).__name__, key)
        if key not in self.consts:
            c = z3.Const(f"K!{len(self.consts)}_{str(raw)[:20]}", U)
            for o in self.constlist:
                self.axioms.append(o != c)
            self.constlist.append(c)
            self.consts[key] = c
        return self.consts[key]

    # ------------------------------------------------------------------ solver
    def check(self, conds, timeout=None, feas=False):
        """satisfiability of axioms + conds (unsat is definite; sat carries a model in last_model)"""
        import time

        t0 = time.time()
        self.stats["sat"] += 1
        timeout = timeout or self.timeout
        qf = [c for c in conds if not _hasq(c)]
        q = [c for c in conds if _hasq(c)]
        ax = [c for c in self.axioms if not _hasq(c)]
        qax = [c for c in self.axioms if _hasq(c)]
        ground = []
        fq = self.instantiate_facts(ground, conds + self.axioms)
        base = ax + qf + ground
        injs = getattr(self, "injections", {})
        if injs:  # an injection that does not occur needs no axiom
            used = base + q + fq
            qax = [c for c in qax if c.get_id() not in injs or any(_anysub(e, injs[c.get_id()], lambda t, n=injs[c.get_id()]: z3.is_app(t) and t.decl().name() == n) for e in used)]
        nl = any(_nonlinear(c) for c in base)
        r = None
        self.last_model = None
        steps = [(base, nl)]
        if nl and not feas:
            steps.append((base, False))
        if q or qax or fq:
            full = base + qax + q + fq
            nlf = nl or any(_nonlinear(c) for c in qax + q + fq)
            steps = [(base, nl), (full, nlf), (full, False)] if not feas else [(base, nl)] + ([(full, nlf)] if q or fq or feas == "q" else [])
        for k, (cs, lin) in enumerate(steps):
            s = z3.Solver()
            last = k == len(steps) - 1
            s.set("timeout", int(timeout if last and not feas else min(timeout, 1500)))
            if lin:
                s.set("arith.nl", False)
            if len(cs) > len(base) and (feas or not last):
                s.set("mbqi", False)
            s.add(*cs)
            r = s.check()
            if r == z3.unsat:
                break
        if r == z3.sat and not lin:
            self.last_model = s.model()
        elif r == z3.sat:
            r = z3.unknown
        dt = time.time() - t0
        self.stats["solver_s"] += dt
        if dt > 1:
            self.stats.setdefault("slow", []).append((round(dt, 1), str(r), feas, nl, len(q), len(qax), self.curline))
        return r

    # ---- range facts about input functions (lengths are non-negative, shots positive, ...)
    def range_fact(self, v, lo, hi):
        if lo is None and hi is None:
            return
        if isinstance(lo, float):
            lo = z3.RealVal(Fraction(lo))
        if isinstance(hi, float):
            hi = z3.RealVal(Fraction(hi))
        self.facts[v.decl().name()] = (v.decl(), lambda a: z3.And(*([a >= lo] if lo is not None else []), *([a <= hi] if hi is not None else [])))

    def instantiate_facts(self, solver, conds):
        if not self.facts:
            return []
        seen, st, quant = set(), [(c, 0) for c in conds], {}
        while st:
            x, _ = st.pop()
            if x.get_id() in seen:
                continue
            seen.add(x.get_id())
            if z3.is_quantifier(x):
                st.append((x.body(), 1))
                continue
            if z3.is_app(x) and x.decl().name() in self.facts:
                if not _hasvar(x):
                    solver.append(self.facts[x.decl().name()][1](x))
                else:
                    quant[x.decl().name()] = x.decl()
            st.extend((c, 0) for c in x.children())
        out = []
        for d in quant.values():
            vs = [z3.Const(f"q{k}", d.domain(k)) for k in range(d.arity())]
            out.append(z3.ForAll(vs, self.facts[d.name()][1](d(*vs)), patterns=[d(*vs)]))
        return out

    def bounded_length(self, lo, hi):
        """fork over the lengths lo..bound"""
        k = self.bound if hi is None else min(hi, self.bound)
        for n in range(lo, k):
            if self.decide(z3.Bool(f"len!{self.uid()}")):
                return n
        return max(k, lo)

    def obligation(self, name, cond):
        rep = self.prove_report(rv(cond))
        self.obligations.append((name, self.curline, rep))
        if not _hasq(rv(cond)):
            self.pc.append(rv(cond))

    def feasible(self, cond):
        c = z3.simplify(cond)
        if z3.is_true(c):
            return True
        if z3.is_false(c):
            return False
        key = (tuple(p.get_id() for p in self.pc), c.get_id(), len(self.axioms))
        if key in self.cache:
            return self.cache[key][0]
        r = self.check(self.pc + [c], timeout=1000, feas=True) != z3.unsat
        self.cache[key] = (r, list(self.pc), c)  # keep asts alive
        return r

    def valid(self, cond):
        return not self.feasible(z3.Not(cond))

    def assume(self, cond):
        if cond is True:
            return
        if cond is False:
            raise Infeasible()
        c = z3.simplify(cond)
        if z3.is_true(c):
            return
        if z3.is_false(c):
            raise Infeasible()
        self.pc.append(cond)

    def decide(self, cond):
        """fork on a condition; returns a python bool for the branch being executed"""
        if isinstance(cond, bool):
            return cond
        c = z3.simplify(cond)
        if z3.is_true(c):
            return True
        if z3.is_false(c):
            return False
        if not self.dstack:
            raise Unsupported("decision outside exploration")
        d = self.dstack[-1]
        if d.pos < len(d.prefix):
            v = d.prefix[d.pos]
            d.pos += 1
            d.taken.append(v)
            self.pc.append(cond if v else z3.Not(cond))
            return v
        t, f = self.feasible(cond), self.feasible(z3.Not(cond))
        if not t and not f:
            raise Infeasible()
        if t and f:
            d.work.append(d.taken + [False])
        v = t
        d.taken.append(v)
        d.prefix = d.prefix + [v]
        d.pos += 1
        if t and f:
            self.pc.append(cond if v else z3.Not(cond))
        else:
            self.pc.append(cond if v else z3.Not(cond))
        return v

    # ------------------------------------------------------------------ exploration
    def snapshot(self):
        return (dict(self.heap), {k: dict(v) for k, v in self.frames.items()})

    def restore(self, s):
        self.heap = dict(s[0])
        for k in list(self.frames):
            if k not in s[1]:
                del self.frames[k]
        for k, v in s[1].items():
            self.frames[k] = dict(v)

    def explore(self, thunk, limit=2000):
        snap = self.snapshot()
        base = list(self.pc)
        work, out = [[]], []
        idx0, depth0 = list(self.idx), self.depth
        while work:
            prefix = work.pop()
            self.restore(snap)
            self.pc = list(base)
            self.dstack.append(Decider(prefix, work))
            kind = val = None
            try:
                val = thunk()
                kind = "ok"
            except ReturnEx as e:
                kind, val = "return", e.v
            except BreakEx:
                kind = "break"
            except ContinueEx:
                kind = "ok"
            except PyRaise as e:
                kind, val = "raise", e
            except Infeasible:
                kind = None
            finally:
                self.dstack.pop()
                self.idx, self.depth = list(idx0), depth0
            if kind:
                out.append(Path(self.pc[len(base):], kind, val, self.snapshot()))
                self.stats["paths"] += 1
            if len(out) > limit:
                raise Unsupported("too many paths")
        self.restore(snap)
        self.pc = base
        return out

    def merge_eval(self, thunk):
        """evaluate without forking when the thunk is effect-free and its results merge"""
        snap = self.snapshot()
        n0 = self.nid
        paths = self.explore(thunk)
        if not paths:
            raise Infeasible()
        if len(paths) == 1 and paths[0].kind in ("ok",):
            # deterministic: run it for real (keeps effects)
            self.pc = self.pc + paths[0].pc
            self.restore(paths[0].snap)
            return paths[0].val
        if all(p.kind == "ok" for p in paths):
            pure = all(self.unchanged(snap, p.snap) for p in paths)
            if pure:
                vals = []
                for p in paths:
                    self.restore(p.snap)
                    vals.append((zand(p.pc), self.freeze(p.val, snap)))
                self.restore(snap)
                m = self.merge(vals)
                return m
        self.restore(snap)
        return thunk()

    def unchanged(self, a, b):
        for k, v in a[0].items():
            w = b[0].get(k)
            if w is not v and not same(v, w):
                return False
        for f, vs in a[1].items():
            ws = b[1].get(f)
            if ws is None:
                continue
            for n, v in vs.items():
                if ws.get(n) is not v and not same(v, ws.get(n)):
                    return False
            if len(ws) != len(vs):
                return False
        return True

    def merge(self, cases):
        """[(cond, value)] exclusive & exhaustive -> one value"""
        cases = list(cases)
        if len(cases) == 1:
            return cases[0][1]
        v = cases[-1][1]
        ok = True
        for c, w in reversed(cases[:-1]):
            try:
                v = self.ite(c, w, v)
            except Unsupported:
                ok = False
                break
        if ok:
            return v
        return G(cases)

    def ite(self, c, a, b):
        if a is b or same(a, b):
            return a
        if isinstance(c, bool):
            return a if c else b
        if isinstance(a, (bool, int, float)) or (is_z3(a)):
            if isinstance(b, (bool, int, float)) or is_z3(b):
                x, y = rv(a), rv(b)
                if z3.is_bool(x) != z3.is_bool(y):
                    raise Unsupported("ite of bool and number")
                if x.sort() != y.sort():
                    x, y = toreal(x), toreal(y)
                return z3.If(c, x, y)
            raise Unsupported("ite")
        if isinstance(a, Opq) and isinstance(b, Opq):
            return Opq(z3.If(c, a.t, b.t), a.ty if a.ty == b.ty else "Any")
        if isinstance(a, tuple) and isinstance(b, tuple) and len(a) == len(b):
            return tuple(self.ite(c, x, y) for x, y in zip(a, b))
        if isinstance(a, NT) and isinstance(b, NT) and a.cls is b.cls:
            return NT(a.cls, [self.ite(c, x, y) for x, y in zip(a.vals, b.vals)])
        if isinstance(a, (Seq, DMap)) and isinstance(b, type(a)):
            # an empty value where the other one has no elements either
            for x, y, g in ((a, b, z3.Not(c)), (b, a, c)):
                if not y.parts and len(x.parts) == 1 and isinstance(x.parts[0], (Pull, Flat, DPull)) and self.valid(z3.Implies(g, x.parts[0].n <= 0)):
                    return x
        if isinstance(a, Seq) and isinstance(b, Seq):
            return Seq([Cond([(c, a), (z3.Not(c), b)])], a.kind)
        raise Unsupported("ite of different shapes")

    def res(self, v):
        """resolve guarded unions by forking"""
        while isinstance(v, G):
            for c, w in v.cases[:-1]:
                if self.decide(c):
                    v = w
                    break
            else:
                c, v = v.cases[-1]
                self.assume(c)
        if isinstance(v, NT) and issubclass(v.cls, FrozenInst):
            r = self.alloc(("inst", v.cls._real, dict(zip(v.cls._fields, v.vals))))
            self.thawed.add(r.id)
            return r
        if v is UNBOUND:
            raise PyRaise(UnboundLocalError, (), self.curline)
        if v is POISON:
            raise Unsupported("value depends on an unsolved loop recurrence")
        return v

    # ------------------------------------------------------------------ heap
    def alloc(self, obj):
        i = self.uid()
        self.heap[i] = obj
        return Ref(i)

    def newlist(self, seq):
        return self.alloc(Seq(seq.parts, "list"))

    def freeze(self, v, since=None):
        """replace heap references (allocated after snapshot `since`) by immutable values"""
        if isinstance(v, Ref):
            if since is not None and v.id in since[0]:
                return v
            o = self.heap[v.id]
            if isinstance(o, (Seq, DMap)):
                return self.freeze(o, since)
            if since is not None and isinstance(o, tuple) and o and isinstance(o[0], str) and o[0] == "inst" and not issubclass(o[1], BaseException):
                if v.id in self.freezing:
                    raise Unsupported("cyclic object")
                self.freezing.add(v.id)
                try:
                    return NT(frozen_class(o[1], sorted(o[2])), [self.freeze(o[2][f], since) for f in sorted(o[2])])
                finally:
                    self.freezing.discard(v.id)
            return v
        if isinstance(v, tuple):
            return tuple(self.freeze(x, since) for x in v)
        if isinstance(v, NT):
            return NT(v.cls, [self.freeze(x, since) for x in v.vals])
        if isinstance(v, Seq):
            return Seq([self.freeze(p, since) for p in v.parts], v.kind)
        if isinstance(v, Unit):
            return Unit(self.freeze(v.v, since))
        if isinstance(v, Pull):
            return Pull(v.n, v.i, self.freeze(v.v, since))
        if isinstance(v, Flat):
            return Flat(v.n, v.i, self.freeze(v.s, since))
        if isinstance(v, (Cond, G)):
            return type(v)([(c, self.freeze(s, since)) for c, s in v.cases])
        if isinstance(v, DMap):
            return DMap([self.freeze(p, since) for p in v.parts], v.default)
        if isinstance(v, DEnt):
            return DEnt(self.freeze(v.k, since), self.freeze(v.v, since))
        if isinstance(v, DPull):
            return DPull(v.n, v.i, self.freeze(v.k, since), self.freeze(v.v, since), v.look, v.g)
        if isinstance(v, DOps):
            return DOps(self.freeze(v.seq, since))
        return v

    def deref(self, v):
        if isinstance(v, Ref):
            return self.heap[v.id]
        return v

    # ------------------------------------------------------------------ truth / numbers
    def truth(self, v):
        """-> python bool or z3 Bool"""
        v = self.res(v)
        if isinstance(v, bool):
            return v
        if z3.is_expr(v):
            if z3.is_bool(v):
                return v
            return v != 0
        if v is None:
            return False
        if isinstance(v, (int, float, str)):
            return bool(v)
        if isinstance(v, NT):
            return len(v.vals) > 0
        if isinstance(v, tuple):
            return len(v) > 0
        d = self.deref(v)
        if isinstance(d, Seq):
            n = self.length(d)
            return n > 0 if isinstance(n, int) else n > 0
        if isinstance(d, DMap):
            if any(isinstance(p, DOps) for p in d.parts) and not any(isinstance(p, Acc) for p in d.parts):
                # a dict is non-empty when it had entries or anything was written
                e = True
                for p in d.parts:
                    e = zand([rv(e), rv(self.forall(p.seq, lambda x: False) if isinstance(p, DOps) else self.dlen(DMap([p])) == 0)])
                return z3.Not(e)
            n = self.length(d)
            return n > 0
        if isinstance(d, tuple) and d and isinstance(d[0], str) and d[0] == "inst":
            m = self.find_method(d[1], "__len__")
            if m:
                return self.call(BM(v, m, "__len__"), [], {}) != 0
            return True
        if isinstance(v, (Func, BM, Bi, types.FunctionType, type)):
            return True
        if isinstance(v, (list, dict, set, frozenset)):
            return bool(v)
        if isinstance(v, Opq):
            return self.opq_truth(v)
        return bool(v)

    def opq_truth(self, v):
        raise Unsupported(f"truth of opaque {v.ty}")

    def num(self, v):
        v = self.res(v)
        if isinstance(v, bool):
            return int(v)
        if isinstance(v, (int, float)):
            return v
        if is_z3(v):
            if z3.is_bool(v):
                return z3.If(v, z3.IntVal(1), z3.IntVal(0))
            return v
        try:
            import numpy as np

            if isinstance(v, np.generic):
                return v.item()
        except Exception:
            pass
        raise Unsupported(f"number expected, got {type(v).__name__} {str(v)[:60]}")

    # ------------------------------------------------------------------ sequences
    def toseq(self, v, setok=True):
        v = self.res(v)
        if isinstance(v, Seq):
            return v
        if isinstance(v, NT):
            return Seq([Unit(x) for x in v.vals], "tuple")
        if isinstance(v, tuple):
            return Seq([Unit(x) for x in v], "tuple")
        if isinstance(v, Ref):
            o = self.heap[v.id]
            if isinstance(o, Seq):
                return o
            if isinstance(o, DMap):
                return self.dkeys(o)
            if isinstance(o[0], str) and o[0] == "inst" and o[1] is IterObj:
                sq, pos = o[2]["seq"], o[2]["pos"]
                if pos is None:
                    raise Unsupported("an iterator that was consumed before")
                self.iterpos(v, None)
                return sq if isinstance(pos, int) and pos == 0 else self.toseq(self.slice(sq, pos, None, None))
            if isinstance(o[0], str) and o[0] == "inst":
                m = self.find_method(o[1], "__iter__")
                if m:
                    return self.toseq(self.call(BM(v, m, "__iter__"), [], {}))
            raise Unsupported("iteration over object")
        if isinstance(v, DMap):
            return self.dkeys(v)
        if isinstance(v, range):
            return Seq([Unit(x) for x in v])
        if isinstance(v, (list, tuple, dict)):
            return Seq([Unit(x) for x in v])
        if isinstance(v, (set, frozenset)):
            return Seq([Unit(x) for x in v], "set")
        if isinstance(v, str):
            return Seq([Unit(x) for x in v], "str")
        if isinstance(v, type) and issubclass(v, __import__("enum").Enum):
            return Seq([Unit(x) for x in v])
        if isinstance(v, Opq) and (v.ty, "__iter__") in METHODS:
            return self.toseq(METHODS[(v.ty, "__iter__")](self, v, [], {}))
        import numpy as np

        if isinstance(v, np.ndarray):
            return Seq([Unit(x) for x in v.tolist()])
        if isinstance(v, (types.GeneratorType, map, zip, enumerate, filter)) or hasattr(type(v), "__next__"):
            raise Unsupported("native iterator")
        raise Unsupported(f"not iterable in the fragment: {type(v).__name__} {str(v)[:60]}")

    def mkpull(self, n, i, v):
        if isinstance(n, int):
            if n <= 0:
                return []
            if n <= 8:
                return [Unit(subst(v, [(i, z3.IntVal(k))])) for k in range(n)]
            n = z3.IntVal(n)
        n = z3.simplify(n)
        if z3.is_int_value(n):
            k = n.as_long()
            if k <= 8:
                return self.mkpull(k, i, v)
        return [Pull(n, i, v)]

    def mkflat(self, n, i, s):
        if not s.parts:
            return []
        if len(s.parts) == 1 and isinstance(s.parts[0], Unit):
            return self.mkpull(n, i, s.parts[0].v)
        nn = z3.simplify(rv(n))
        if z3.is_int_value(nn) and nn.as_long() <= 8:
            out = []
            for k in range(nn.as_long()):
                out += subst(s, [(i, z3.IntVal(k))]).parts
            return out
        return [Flat(nn, i, s)]

    def length(self, v):
        v = self.res(v)
        if isinstance(v, (str, list, dict, set, frozenset, range)):
            return len(v)
        d = self.deref(v)
        if isinstance(d, DMap):
            return self.dlen(d)
        if isinstance(d, tuple) and d and isinstance(d[0], str) and d[0] == "inst":
            m = self.find_method(d[1], "__len__")
            if m:
                return self.call(BM(v, m, "__len__"), [], {})
            raise PyRaise(TypeError, (), self.curline)
        if isinstance(v, Opq):
            if (v.ty, "__len__") in METHODS:
                return METHODS[(v.ty, "__len__")](self, v, [], {})
            raise Unsupported(f"len of opaque {v.ty}")
        s = self.need_distinct(self.toseq(v))
        if s.kind == "accvalues":
            raise Unsupported("len of an accumulated dict")
        return self.hom(s, lambda x: 1)

    def need_distinct(self, s):
        """a set view may be counted or iterated only if its elements are provably distinct"""
        if s.kind != "set" or all(isinstance(p, Unit) for p in s.parts):
            return s
        if len(s.parts) == 1:
            p = s.parts[0]
            if isinstance(p, Cond):
                return s
            if isinstance(p, Flat) and len(p.s.parts) == 1 and isinstance(p.s.parts[0], Cond) and all(
                len(t.parts) == 1 and isinstance(t.parts[0], Unit) for _, t in p.s.parts[0].cases
            ) and len(p.s.parts[0].cases) == 1:
                p = Pull(p.n, p.i, p.s.parts[0].cases[0][1].parts[0].v)
            if isinstance(p, Pull):
                j1, j2 = self.fresh_idx("u"), self.fresh_idx("u")
                inj = z3.ForAll([j1, j2], z3.Implies(z3.And(0 <= j1, j1 < j2, j2 < p.n), z3.Not(rv(self.eq(subst(p.v, [(p.i, j1)]), subst(p.v, [(p.i, j2)]))))))
                if self.prove(inj, 3000):
                    return s
        raise Unsupported("set with possibly repeated elements")

    def hom(self, s, f):
        """sum over the elements of s of f(element) (python/z3 number)"""
        tot = 0
        for p in s.parts:
            tot = zadd(tot, self.hom_part(p, f))
        return tot

    def hom_part(self, p, f):
        if isinstance(p, Unit):
            return f(p.v)
        if isinstance(p, Pull):
            j = self.fresh_idx("j")
            return self.bsum(p.n, j, f(subst(p.v, [(p.i, j)])))
        if isinstance(p, Flat):
            j = self.fresh_idx("j")
            return self.bsum(p.n, j, self.hom(subst(p.s, [(p.i, j)]), f))
        if isinstance(p, Cond):
            r = 0
            for c, s in reversed(p.cases):
                h = self.hom(s, f)
                r = zite(c, h, r)
            return r
        raise Unsupported(f"fold over {type(p).__name__}")

    def forall(self, s, f):
        """conjunction over elements of f(element) (python bool / z3 Bool)"""
        out = []
        for p in s.parts:
            if isinstance(p, Unit):
                out.append(rv(f(p.v)))
            elif isinstance(p, Pull):
                j = self.fresh_idx("j")
                out.append(self.qall(j, p.n, f(subst(p.v, [(p.i, j)]))))
            elif isinstance(p, Flat):
                j = self.fresh_idx("j")
                out.append(self.qall(j, p.n, self.forall(subst(p.s, [(p.i, j)]), f)))
            elif isinstance(p, Cond):
                for c, s2 in p.cases:
                    out.append(z3.Implies(c, rv(self.forall(s2, f))))
            else:
                raise Unsupported("forall over accumulator")
        return zand(out)

    def qall(self, j, n, body):
        body = rv(body)
        if z3.is_true(z3.simplify(body)):
            return z3.BoolVal(True)
        return z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < n), body))

    def bsum(self, n, i, e, depth=0):
        """symbolic sum over 0<=i<n of e(i)"""
        e = rv(e)
        n = rv(n)
        e = z3.simplify(e)
        if not mentions(e, i):
            if z3.is_int_value(e) or z3.is_rational_value(e):
                if e.as_fraction() == 0 if z3.is_rational_value(e) else e.as_long() == 0:
                    return 0
                if z3.is_int_value(e) and e.as_long() == 1:
                    return n
            return z3.simplify(n * e) if z3.is_int_value(e) else n * e
        if z3.is_add(e):
            t = 0
            for c in e.children():
                t = zadd(t, self.bsum(n, i, c, depth))
            return t
        if z3.is_mul(e):
            inv = [c for c in e.children() if not mentions(c, i)]
            dep = [c for c in e.children() if mentions(c, i)]
            if inv:
                d = dep[0]
                for c in dep[1:]:
                    d = d * c
                r = rv(self.bsum(n, i, d, depth))
                for c in inv:
                    r = c * r
                return r
        if depth < 6:
            h = self._free_cond(e, i)
            if h is not None:
                x = z3.simplify(z3.substitute(e, (h, z3.BoolVal(True))))
                y = z3.simplify(z3.substitute(e, (h, z3.BoolVal(False))))
                return zite(h, self.bsum(n, i, x, depth + 1), self.bsum(n, i, y, depth + 1))
        if z3.is_app_of(e, z3.Z3_OP_ITE):
            c, a, b = e.children()
            # delta collapse: ite(i == k, x, y)
            for x, y, cc in ((a, b, c), (b, a, z3.Not(c))):
                k = eq_index(cc, i)
                if k is not None:
                    base = self.bsum(n, i, y, depth) if mentions(y, i) or not is_zero(y) else 0
                    xa, ya = z3.substitute(x, (i, k)), z3.substitute(y, (i, k))
                    return zadd(base, z3.If(z3.And(k >= 0, k < n), xa - ya, coerce0(xa)))
            # threshold: ite(i < t, x, y) with x, y free of i
            if not mentions(a, i) and not mentions(b, i):
                t = _threshold(c, i)
                if t is not None:
                    t, pos = t
                    lo, hi = (a, b) if pos else (b, a)
                    m = z3.If(t <= 0, z3.IntVal(0), z3.If(t >= n, z3.If(n >= 0, n, z3.IntVal(0)), t))
                    return m * lo + (z3.If(n >= 0, n, z3.IntVal(0)) - m) * hi
        return self.binder("sum", n, i, e)

    def _free_cond(self, e, i):
        """an i-free condition of an if-then-else inside e (a conjunct of a condition counts), if any"""
        seen, st = set(), [e]
        while st:
            x = st.pop()
            if x.get_id() in seen:
                continue
            seen.add(x.get_id())
            if z3.is_app_of(x, z3.Z3_OP_ITE):
                for c in self._atoms(x.arg(0)):
                    if not mentions(c, i) and not _hasq(c):
                        return c
            if z3.is_app(x) and (x.decl().kind() != z3.Z3_OP_UNINTERPRETED):
                st.extend(x.children())
        return None

    def _atoms(self, c):
        if z3.is_and(c) or z3.is_or(c) or z3.is_not(c):
            return [a for k in c.children() for a in self._atoms(k)]
        return [c]

    def binder(self, kind, n, i, e, sort=None):
        """hash-consed binder application kind(n, params)"""
        e = rv(e)
        params = [c for c in zconsts(e) if c.get_id() in self.idxconsts and c.get_id() != i.get_id()]
        params.sort(key=lambda c: str(c))
        sub = [(i, z3.Int("%i"))] + [(p, z3.Int(f"%p{k}")) for k, p in enumerate(params)]
        key = (kind, z3.substitute(e, *sub).sexpr(), len(params))
        if key not in self.binders:
            srt = sort if sort is not None else e.sort()
            f = z3.Function(f"{kind}#{len(self.binders)}", z3.IntSort(), *[z3.IntSort()] * len(params), srt)
            info = dict(kind=kind, f=f, i=i, params=params, e=e)
            self.binders[key] = info
            self.binfo[f.name()] = info
        info = self.binders[key]
        return info["f"](rv(n), *params)

    # element access
    def flatten_pulls(self, s):
        """view s as a single (n, fn(index)->value) if all parts are units or pulls; else None"""
        if not all(isinstance(p, (Unit, Pull)) for p in s.parts):
            return None
        n = 0
        segs = []
        for p in s.parts:
            m = 1 if isinstance(p, Unit) else p.n
            segs.append((n, m, p))
            n = zadd(n, m)

        def at(k):
            def val(seg):
                st, m, p = seg
                return p.v if isinstance(p, Unit) else subst(p.v, [(p.i, z3.simplify(rv(zsub(k, st))))])

            v = val(segs[-1])
            for seg in reversed(segs[:-1]):
                v = self.merge([(rv(k) < rv(zadd(seg[0], seg[1])), val(seg)), (z3.Not(rv(k) < rv(zadd(seg[0], seg[1]))), v)])
            return v

        return n, at

    def index(self, v, k):
        k = self.num(k)
        s = self.toseq(v)
        if s.kind == "set":
            raise PyRaise(TypeError, (), self.curline)
        if isinstance(k, int) and all(isinstance(p, Unit) for p in s.parts):
            n = len(s.parts)
            if not -n <= k < n:
                raise PyRaise(IndexError, (), self.curline)
            return s.parts[k].v
        if isinstance(k, int) and k >= 0 and len(s.parts) > k and all(isinstance(p, Unit) for p in s.parts[: k + 1]):
            return s.parts[k].v
        if isinstance(k, int) and k < 0 and len(s.parts) >= -k and all(isinstance(p, Unit) for p in s.parts[k:]):
            return s.parts[k].v
        n = self.length(s)
        neg = k < 0
        if self.decide(neg) if not isinstance(neg, bool) else neg:
            k = zadd(k, n)
        if not self.decide(z3.And(rv(k) >= 0, rv(k) < rv(n))):
            raise PyRaise(IndexError, (), self.curline)
        if not isinstance(k, int):
            k = z3.simplify(k)
            if z3.is_int_value(k):
                k = k.as_long()
        fp = self.flatten_pulls(s)
        if fp is None:
            if len(s.parts) == 1 and isinstance(s.parts[0], Cond):
                for c, t in s.parts[0].cases:
                    if self.decide(c):
                        return self.index(t, k)
            # locate the part
            st = 0
            for p in s.parts:
                ln = self.length(Seq([p]))
                if self.decide(rv(k) < rv(zadd(st, ln))):
                    if isinstance(p, Unit):
                        return p.v
                    if isinstance(p, Pull):
                        return subst(p.v, [(p.i, rv(zsub(k, st)))])
                    if isinstance(p, Cond):
                        for c, t in p.cases:
                            if self.decide(c):
                                return self.index(t, zsub(k, st))
                    raise Unsupported("index into a flattened sequence")
                st = zadd(st, ln)
            raise Infeasible()
        st = 0
        if all(isinstance(p, Unit) for p in s.parts) or len(s.parts) > 1:
            # fork on the segment to keep values simple
            try:
                return fp[1](k)
            except Unsupported:
                pass
        return fp[1](k)

    def slice(self, v, lo, hi, step):
        v = self.res(v)
        s = self.toseq(v)
        kind = s.kind
        if isinstance(v, str):
            return v[lo:hi:step]
        if step is not None and step != 1:
            if step == -1 and lo is None and hi is None:
                return self.wrap_like(v, self.reverse(s))
            if all(isinstance(p, Unit) for p in s.parts) and all(x is None or isinstance(x, int) for x in (lo, hi, step)):
                return self.wrap_like(v, Seq(s.parts[lo:hi:step], kind))
            raise Unsupported("slice step")
        if all(isinstance(p, Unit) for p in s.parts) and all(x is None or isinstance(x, int) for x in (lo, hi)):
            return self.wrap_like(v, Seq(s.parts[lo:hi], kind))
        if lo is not None:
            lo = self.num(lo)
        if hi is not None:
            hi = self.num(hi)
        if (lo is None or lo == 0) if isinstance(lo, (int, type(None))) else False:
            if hi is None:
                return self.wrap_like(v, s)
        n = self.length(s)

        def norm(x, dflt):
            if x is None:
                return dflt
            if isinstance(x, int) and isinstance(n, int):
                return max(0, min(n, x + n if x < 0 else x))
            if self.decide(x < 0) if not isinstance(x, int) else x < 0:
                x = zadd(x, n)
                if self.decide(rv(x) < 0):
                    return 0
                return x
            if self.decide(rv(x) > rv(n)):
                return n
            return x

        a, b = norm(lo, 0), norm(hi, n)
        if not (isinstance(a, int) and isinstance(b, int)):
            if self.decide(rv(a) >= rv(b)):
                return self.wrap_like(v, Seq([], kind))
        elif a >= b:
            return self.wrap_like(v, Seq([], kind))
        fp = self.flatten_pulls(s)
        if fp is None:
            r = self.flat_slice(s, a, b)
            if r is None:
                raise Unsupported("slice of a flattened sequence")
            return self.wrap_like(v, r)
        if isinstance(a, int) and isinstance(b, int) and all(isinstance(p, Unit) for p in s.parts):
            return self.wrap_like(v, Seq(s.parts[a:b], kind))
        # drop leading/trailing units exactly where possible
        m = z3.simplify(rv(zsub(b, a)))
        if z3.is_int_value(m):
            m = m.as_long()
        if isinstance(m, int) and m <= 64 or all(isinstance(p, Unit) for p in s.parts):
            if not isinstance(m, int):
                # concrete-length data, symbolic bounds: fork on the bounds
                for x in range(len(s.parts) + 1):
                    if self.decide(rv(a) == x):
                        a = x
                        break
                for x in range(len(s.parts) + 1):
                    if self.decide(rv(b) == x):
                        b = x
                        break
                return self.wrap_like(v, Seq(s.parts[a:b], kind))
            return self.wrap_like(v, Seq([Unit(fp[1](zadd(a, t))) for t in range(m)], kind))
        j = self.fresh_idx("s")
        return self.wrap_like(v, Seq(self.mkpull(m, j, fp[1](z3.simplify(rv(zadd(a, j))))), kind))

    def flat_slice(self, s, a, b):
        """[a:b] of Flat(n,i,body) where a,b are the prefix lengths at t and t+1 -> body(t)"""
        if len(s.parts) != 1 or not isinstance(s.parts[0], Flat):
            return None
        p = s.parts[0]
        j = self.fresh_idx("j")
        body_len = self.length(subst(p.s, [(p.i, j)]))
        cands = []
        for x in zapps(rv(a), lambda d: d.name() in self.binfo and self.binfo[d.name()]["kind"] == "sum") + zapps(
            rv(b), lambda d: d.name() in self.binfo and self.binfo[d.name()]["kind"] == "sum"
        ):
            cands.append(x.arg(0))
        cands += list(self.idx)
        for t in cands:
            for t in (t, z3.simplify(t - 1)):
                pre = rv(self.bsum(t, j, body_len))
                nxt = z3.simplify(pre + z3.substitute(rv(body_len), (j, t)))
                if self.prove_eq(rv(a), pre) and self.prove_eq(rv(b), nxt) and self.valid(z3.And(t >= 0, t < p.n)):
                    return subst(p.s, [(p.i, t)])
        return None

    def prove_eq(self, a, b):
        g = a == b
        if self.valid(g):
            return True
        lem = self.lemmas([g] + self.pc)
        if not lem:
            return False
        return self.check(self.pc + lem + [z3.Not(g)]) == z3.unsat

    def wrap_like(self, v, s):
        v = self.res(v)
        if isinstance(v, Ref) or isinstance(v, list):
            return self.newlist(s)
        if isinstance(v, NT) or isinstance(v, tuple) or (isinstance(v, Seq) and v.kind == "tuple"):
            if all(isinstance(p, Unit) for p in s.parts):
                return tuple(p.v for p in s.parts)
            return Seq(s.parts, "tuple")
        if isinstance(v, Seq):
            return self.newlist(s)
        return self.newlist(s)

    def reverse(self, s):
        out = []
        for p in reversed(s.parts):
            if isinstance(p, Unit):
                out.append(p)
            elif isinstance(p, Pull):
                j = self.fresh_idx("r")
                out.append(Pull(p.n, j, subst(p.v, [(p.i, p.n - 1 - j)])))
            elif isinstance(p, Flat):
                j = self.fresh_idx("r")
                out.append(Flat(p.n, j, self.reverse(subst(p.s, [(p.i, p.n - 1 - j)]))))
            elif isinstance(p, Cond):
                out.append(Cond([(c, self.reverse(t)) for c, t in p.cases]))
            else:
                raise Unsupported("reverse of accumulator")
        return Seq(out, s.kind)

    def zip2(self, a, b, strict=False):
        """zip of two Seqs -> Seq of pairs"""
        if all(isinstance(p, Unit) for p in a.parts) and all(isinstance(p, Unit) for p in b.parts):
            return Seq([Unit((x.v, y.v)) for x, y in zip(a.parts, b.parts)])
        if not a.parts or not b.parts:
            return Seq([])
        fa, fb = self.flatten_pulls(a), self.flatten_pulls(b)
        if fa is not None and fb is not None:
            na, nb = fa[0], fb[0]
            if isinstance(na, int) and isinstance(nb, int):
                n = min(na, nb)
            elif self.valid(rv(na) == rv(nb)):
                n = na
            elif self.decide(rv(na) <= rv(nb)):
                n = na
            else:
                n = nb
            if not isinstance(n, int):
                n = z3.simplify(n)
                if z3.is_int_value(n):
                    n = n.as_long()
            if isinstance(n, int):
                return Seq([Unit((fa[1](k), fb[1](k))) for k in range(n)])
            j = self.fresh_idx("z")
            return Seq([Pull(n, j, (fa[1](j), fb[1](j)))])
        # same leading structure
        pa, pb = a.parts[0], b.parts[0]
        if isinstance(pa, Flat) and isinstance(pb, Flat) and self.valid(pa.n == pb.n):
            j = self.fresh_idx("z")
            sa, sb = subst(pa.s, [(pa.i, j)]), subst(pb.s, [(pb.i, j)])
            g = z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < pa.n), rv(self.length(sa)) == rv(self.length(sb))))
            if self.prove(g):
                base = list(self.pc)
                self.pc.append(z3.And(j >= 0, j < pa.n))
                try:
                    z = self.zip2(sa, sb)
                finally:
                    self.pc = base
                return Seq([Flat(pa.n, j, z)] + list(self.zip2(Seq(a.parts[1:]), Seq(b.parts[1:])).parts))
        if isinstance(pa, Cond) or isinstance(pb, Cond) or len(a.parts) > 1 or len(b.parts) > 1:
            la, lb = self.length(Seq([pa])), self.length(Seq([pb]))
            if self.valid(rv(la) == rv(lb)):
                if isinstance(pa, Cond):
                    z = Seq([Cond([(c, self._under(c, lambda s=s: self.zip2(s, Seq([pb])))) for c, s in pa.cases])])
                elif isinstance(pb, Cond):
                    z = Seq([Cond([(c, self._under(c, lambda s=s: self.zip2(Seq([pa]), s))) for c, s in pb.cases])])
                else:
                    z = self.zip2(Seq([pa]), Seq([pb]))
                return Seq(list(z.parts) + list(self.zip2(Seq(a.parts[1:]), Seq(b.parts[1:])).parts))
            # split a pull
            for x, y, lx, swap in ((pa, pb, la, False), (pb, pa, lb, True)):
                if isinstance(y, Pull) and self.valid(rv(lx) <= y.n):
                    y1 = Pull(rv(lx), y.i, y.v)
                    j = self.fresh_idx("z")
                    y2 = Pull(z3.simplify(y.n - rv(lx)), j, subst(y.v, [(y.i, j + rv(lx))]))
                    if swap:
                        return self.zip2(Seq([y1, y2] + list(a.parts[1:])), b)
                    return self.zip2(a, Seq([y1, y2] + list(b.parts[1:])))
        if isinstance(pa, Cond):
            return Seq([Cond([(c, self._under(c, lambda s=s: self.zip2(Seq(list(s.parts) + list(a.parts[1:])), b))) for c, s in self.complete(pa)])])
        if isinstance(pb, Cond):
            return Seq([Cond([(c, self._under(c, lambda s=s: self.zip2(a, Seq(list(s.parts) + list(b.parts[1:]))))) for c, s in self.complete(pb)])])
        raise Unsupported("zip of differently structured sequences")

    def complete(self, p):
        rest = z3.Not(z3.Or(*[c for c, _ in p.cases]))
        if self.feasible(rest):
            return list(p.cases) + [(rest, Seq([]))]
        return list(p.cases)

    def _under(self, c, th):
        base = list(self.pc)
        self.pc.append(c)
        try:
            return th()
        finally:
            self.pc = base

    # ------------------------------------------------------------------ equality
    def eq(self, a, b):
        """-> python bool or z3 Bool"""
        a, b = self.res(a), self.res(b)
        if a is b:
            return True
        numa = isinstance(a, (bool, int, float)) or is_z3(a)
        numb = isinstance(b, (bool, int, float)) or is_z3(b)
        if numa and numb:
            if not is_z3(a) and not is_z3(b):
                return a == b
            x, y = rv(a), rv(b)
            if z3.is_bool(x) != z3.is_bool(y):
                x, y = rv(self.num(x)), rv(self.num(y))
            if x.sort() != y.sort():
                x, y = toreal(x), toreal(y)
            return z3.simplify(x == y)
        if isinstance(a, Opq) or isinstance(b, Opq):
            if isinstance(a, Opq) and isinstance(b, Opq):
                if a.ty != b.ty and "Any" not in (a.ty, b.ty):
                    return False
                return z3.simplify(a.t == b.t)
            o, r = (a, b) if isinstance(a, Opq) else (b, a)
            if r is None or numa or numb or isinstance(r, (NT, tuple, Ref, Seq, DMap)):
                if o.ty == "Any":
                    raise Unsupported("equality with untyped opaque")
                return False
            return z3.simplify(o.t == self.const(r))
        if isinstance(a, (tuple, NT)) and isinstance(b, (tuple, NT)):
            x = a.vals if isinstance(a, NT) else a
            y = b.vals if isinstance(b, NT) else b
            if len(x) != len(y):
                return False
            return zand([rv(self.eq(p, q)) for p, q in zip(x, y)])
        da, db = self.deref(a), self.deref(b)
        if isinstance(da, list):
            da = Seq([Unit(x) for x in da])
        if isinstance(db, list):
            db = Seq([Unit(x) for x in db])
        if isinstance(da, Seq) or isinstance(db, Seq):
            if isinstance(da, (tuple, NT)) or isinstance(da, range):
                da = self.toseq(da)
            if isinstance(db, (tuple, NT)) or isinstance(db, range):
                db = self.toseq(db)
            if not (isinstance(da, Seq) and isinstance(db, Seq)):
                return False
            if isinstance(da, KSeq) or isinstance(db, KSeq):
                return self.keyeq(da, db)
            return self.seqeq(da, db)
        if isinstance(da, DMap) and isinstance(db, (DMap, dict)) or isinstance(db, DMap) and isinstance(da, dict):
            return self.deq(self.todict(da), self.todict(db))
        if isinstance(da, tuple) and da and isinstance(da[0], str) and da[0] == "inst" and isinstance(db, tuple) and db and isinstance(db[0], str) and db[0] == "inst":
            m = self.find_method(da[1], "__eq__")
            if m is not None:
                return self.truth(self.call(BM(a, m, "__eq__"), [b], {}))
            return a == b
        if isinstance(a, Ref) or isinstance(b, Ref):
            return False
        try:
            return bool(a == b)
        except Exception:
            raise Unsupported("native equality")

    def seqeq(self, a, b):
        if a.kind == "set" or b.kind == "set":
            return self.seteq(a, b)
        if all(isinstance(p, Unit) for p in a.parts) and all(isinstance(p, Unit) for p in b.parts):
            if len(a.parts) != len(b.parts):
                return False
            return zand([rv(self.eq(p.v, q.v)) for p, q in zip(a.parts, b.parts)])
        fa, fb = self.flatten_pulls(a), self.flatten_pulls(b)
        if fa is not None and fb is not None:
            if isinstance(fa[0], int) and isinstance(fb[0], int):
                return False if fa[0] != fb[0] else zand([rv(self.eq(fa[1](k), fb[1](k))) for k in range(fa[0])])
            if isinstance(fa[0], int) or isinstance(fb[0], int):
                # one side concrete
                if not isinstance(fa[0], int):
                    fa, fb = fb, fa
                k = fa[0]
                if k <= 16:
                    return zand([rv(fb[0]) == k] + ([rv(self.eq(fa[1](t), fb[1](z3.IntVal(t)))) for t in range(k)]))
            j = self.fresh_idx("e")
            base = list(self.pc)
            self.pc.append(z3.And(j >= 0, j < rv(fa[0])))
            try:
                body = self.merge_eval(lambda: self.eq(fa[1](j), fb[1](j)))
            finally:
                self.pc = base
            return zand([rv(fa[0]) == rv(fb[0]), self.qall(j, rv(fa[0]), body)])
        # structural (sufficient)
        self.inexact = True
        if len(a.parts) == 1 and isinstance(a.parts[0], Cond) or len(b.parts) == 1 and isinstance(b.parts[0], Cond):
            x, y = (a, b) if len(a.parts) == 1 and isinstance(a.parts[0], Cond) else (b, a)
            return zand([z3.Implies(c, rv(self._under(c, lambda s=s: self.seqeq(s, y)))) for c, s in self.complete(x.parts[0])])
        if len(a.parts) != len(b.parts):
            raise Unsupported("equality of differently structured sequences")
        out = []
        for p, q in zip(a.parts, b.parts):
            if isinstance(p, Flat) and isinstance(q, Flat):
                j = self.fresh_idx("e")
                base = list(self.pc)
                self.pc.append(z3.And(j >= 0, j < p.n))
                try:
                    body = self.seqeq(subst(p.s, [(p.i, j)]), subst(q.s, [(q.i, j)]))
                finally:
                    self.pc = base
                out += [p.n == q.n, self.qall(j, p.n, body)]
            elif isinstance(p, (Unit, Pull)) and isinstance(q, (Unit, Pull)) or isinstance(p, Cond) or isinstance(q, Cond):
                out.append(rv(self.seqeq(Seq([p]), Seq([q]))))
            else:
                raise Unsupported("equality of differently structured sequences")
        return zand(out)

    def seteq(self, a, b):
        return zand([rv(self.forall(a, lambda x: self.member(x, b))), rv(self.forall(b, lambda x: self.member(x, a)))])

    def keyeq(self, a, b):
        """equality of views of the keys of dicts: as sets, whatever the orders"""
        if not all(isinstance(x, KSeq) or x.kind == "set" for x in (a, b)):
            return False
        has = lambda s, x: rv(self.dget(s.d, x)[0]) if isinstance(s, KSeq) else rv(self.member(x, s))  # noqa
        return zand([rv(self.forall(a, lambda x: has(b, x))), rv(self.forall(b, lambda x: has(a, x)))])

    def member(self, x, s):
        out = []
        for p in s.parts:
            if isinstance(p, Unit):
                out.append(rv(self.eq(x, p.v)))
            elif isinstance(p, Pull):
                j = self.fresh_idx("m")
                e = rv(self.eq(x, subst(p.v, [(p.i, j)])))
                out.append(z3.Exists([j], z3.And(j >= 0, j < p.n, e)))
            elif isinstance(p, Flat):
                j = self.fresh_idx("m")
                e = rv(self.member(x, subst(p.s, [(p.i, j)])))
                out.append(z3.Exists([j], z3.And(j >= 0, j < p.n, e)))
            elif isinstance(p, Cond):
                for c, t in p.cases:
                    out.append(z3.And(c, rv(self.member(x, t))))
            else:
                raise Unsupported("membership in accumulator")
        if not out:
            return False
        return z3.simplify(z3.Or(*out)) if len(out) > 1 else out[0]

    # ------------------------------------------------------------------ dicts
    def todict(self, d):
        if isinstance(d, dict):
            return DMap([DEnt(k, v) for k, v in d.items()], getattr(d, "default_factory", None))
        return d

    def ddistinct(self, d):
        return all(isinstance(p, DEnt) for p in d.parts)

    def dnormal(self, d):
        """replace a log of updates with pairwise distinct keys by entries (old keys first, then the new ones)"""
        if not any(isinstance(p, DOps) for p in d.parts):
            return d
        *base, last = d.parts
        if not (isinstance(last, DOps) and all(isinstance(p, (DEnt, DPull)) for p in base)):
            return d
        p, pg = self.simple_log(last.seq)
        if p is None:
            return d
        if not self.injective(p, pg):
            return self.denumerate(d, p, pg)
        parts = []
        for q in base:
            _, v = self.dget(d, q.k)
            parts.append(DEnt(q.k, v) if isinstance(q, DEnt) else DPull(q.n, q.i, q.k, v, q.look, q.g))
        h, _ = self.dget(DMap(base), p.v[1])
        g = z3.simplify(z3.Not(rv(h)))
        g = z3.simplify(z3.And(g, pg))
        parts.append(DPull(p.n, p.i, p.v[1], p.v[2], self.make_look(p.n, p.i, p.v[1], guard=pg), g))
        return DMap(parts, d.default)

    def denumerate(self, d, p, g):
        """enumerate the distinct keys of a log of updates to an empty dict: some order, each key once, nothing else
        (the order is left open, so nothing that depends on it can be proved)"""
        if len(d.parts) != 1 or self.idx or self.bounded:
            return d
        kt = self.keyterms(p.v[1])
        ck = ("enum", tuple(z3.substitute(t, (p.i, z3.Int("%i"))).sexpr() for t in kt), z3.simplify(rv(p.n)).sexpr(), z3.substitute(g, (p.i, z3.Int("%i"))).sexpr())
        if ck not in self.binders:
            u = self.uid()
            self.binders[ck] = (z3.Int(f"en!{u}"), z3.Function(f"ew!{u}", z3.IntSort(), z3.IntSort()),
                                [z3.Function(f"ek{a}!{u}", z3.IntSort(), t.sort()) for a, t in enumerate(kt)], z3.Int(f"ei!{u}"))
            n, W, K, i = self.binders[ck]
            self.idxconsts[i.get_id()] = i
            new = self.rekey(p.v[1], [k(i) for k in K])
            lk = self.make_look(n, i, new)
            w = W(i)
            at = lambda v, j: z3.substitute(rv(v), (p.i, j))  # noqa
            self.axioms.append(z3.And(n >= 0))
            self.axioms.append(z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < n), z3.And(
                w >= 0, w < rv(p.n), at(g, w), *[at(t, w) == k(i) for t, k in zip(kt, K)])), patterns=[K[0](i)]))
            body = z3.Implies(z3.And(p.i >= 0, p.i < rv(p.n), g), lk.has(kt))
            pats = [z3.MultiPattern(*kt)] if all(self.canpat(t, p.i) for t in kt) else []
            self.axioms.append(z3.ForAll([p.i], body, patterns=pats))
        n, W, K, i = self.binders[ck]
        new = self.rekey(p.v[1], [k(i) for k in K])
        _, v = self.dget(d, new)
        return DMap([DPull(n, i, new, v, self.make_look(n, i, new))], d.default)

    def rekey(self, key, terms):
        """a key of the same shape made of other terms"""
        terms = list(terms)

        def go(v):
            v = self.res(v)
            if isinstance(v, Opq):
                return Opq(terms.pop(0), v.ty)
            if isinstance(v, NT):
                return NT(v.cls, [go(x) for x in v.vals])
            if isinstance(v, tuple):
                return tuple(go(x) for x in v)
            if is_z3(v):
                return terms.pop(0)
            raise Unsupported("key shape")

        out = go(key)
        if terms:
            raise Unsupported("key shape")
        return out

    def simple_log(self, seq):
        """one (possibly guarded) update per iteration -> (Pull of updates, guard), or (None, None)"""
        if len(seq.parts) == 1:
            p, g = seq.parts[0], z3.BoolVal(True)
            if isinstance(p, Flat) and len(p.s.parts) == 1 and isinstance(p.s.parts[0], Cond) and len(p.s.parts[0].cases) == 1:
                g, t = p.s.parts[0].cases[0]
                if len(t.parts) == 1 and isinstance(t.parts[0], Unit):
                    p = Pull(p.n, p.i, t.parts[0].v)
            if isinstance(p, Pull) and isinstance(p.v, tuple) and p.v[0] in ("set", "add", "def"):
                return p, g
        return None, None

    def injective(self, p, g):
        """are the keys of the updates made pairwise distinct?"""
        j1, j2 = self.fresh_idx("u"), self.fresh_idx("u")
        at = lambda v, j: subst(v, [(p.i, j)])  # noqa
        return self.prove(z3.ForAll([j1, j2], z3.Implies(z3.And(0 <= j1, j1 < j2, j2 < p.n, at(g, j1), at(g, j2)),
                                                         z3.Not(rv(self.eq(at(p.v[1], j1), at(p.v[1], j2)))))))

    def dkeys(self, d):
        d = self.dnormal(self.todict(d))
        out = []
        for p in d.parts:
            if isinstance(p, DEnt):
                out.append(Unit(p.k))
            elif isinstance(p, DPull):
                out.append(p.entries(p.k))
            else:
                raise Unsupported("iteration over an accumulated dict")
        return Seq(out)

    def ditems(self, d, what="items"):
        d = self.dnormal(self.todict(d))
        out, acc = [], False
        for p in d.parts:
            if isinstance(p, DEnt):
                out.append(Unit((p.k, p.v) if what == "items" else p.v))
            elif isinstance(p, DPull):
                out.append(p.entries((p.k, p.v) if what == "items" else p.v))
            elif isinstance(p, DOps) and what == "values":
                kinds = set()
                self.seq_ops_kinds(p.seq, kinds)
                if kinds != {"add"}:
                    raise Unsupported("values of an accumulated dict")
                # only sum() accepts this view: the sum of the values is the sum of all additions
                acc = True
                out += self.mapseq(p.seq, lambda o: o[2]).parts
            else:
                raise Unsupported("iteration over an accumulated dict")
        return Seq(out, "accvalues") if acc else Seq(out)

    def dlen(self, d):
        d = self.dnormal(d)
        n = 0
        for p in d.parts:
            if isinstance(p, DEnt):
                n = zadd(n, 1)
            elif isinstance(p, DPull):
                n = zadd(n, self.hom(Seq([p.entries(p.k)]), lambda x: 1))
            else:
                raise Unsupported("len of an accumulated dict")
        return n

    def lookup_at(self, p, kf):
        """has, position of a key among the entries p; key(t) with t in range is at position t"""
        kt = self.keyterms(p.k)
        if not p.look.guarded and len(kt) == len(kf) == 1 and z3.is_app(kf[0]) and self.canpat(kt[0], p.i) and z3.eq(kf[0].decl(), kt[0].decl()):
            for t in range(kf[0].num_args()):
                if z3.eq(kt[0].arg(t), p.i):
                    x = kf[0].arg(t)
                    if z3.eq(z3.substitute(kt[0], (p.i, x)), kf[0]) and self.valid(z3.And(x >= 0, x < rv(p.n))):
                        return z3.BoolVal(True), x
        return p.look.has(kf), p.look.idx(kf)

    def dget(self, d, key):
        """-> (has, value): has python/z3 bool, value valid when has"""
        d = self.todict(d)
        key = self.res(key)
        cases = []
        notb = []
        for p in reversed(d.parts):
            if isinstance(p, DEnt):
                e = self.eq(p.k, key)
                if e is True or (z3.is_expr(e) and z3.is_true(z3.simplify(rv(e)))):
                    cases.append((True, p.v))
                    break
                if e is False or (z3.is_expr(e) and z3.is_false(z3.simplify(rv(e)))):
                    continue
                cases.append((rv(e), p.v))
            elif isinstance(p, DPull):
                kf = self.keyterms(key)
                has, ix = self.lookup_at(p, kf)
                cases.append((z3.simplify(z3.And(has, z3.substitute(p.g, (p.i, ix)))), subst(p.v, [(p.i, ix)])))
            elif isinstance(p, DOps):
                h, v, add = self.ops_lookup(p.seq, key)
                if add:
                    # additive log over the previous content
                    h0, v0 = self.dget(DMap(d.parts[: d.parts.index(p)]), key)
                    isacc = len(d.parts) == 2 and isinstance(d.parts[0], Acc)
                    base = 0 if h0 is False else (v0 if h0 is True or isacc else self.ite(h0, v0, 0))
                    tot = zadd(self.num(base), v)
                    hh = True if h0 is True else (h if h0 is False else z3.Or(h0, rv(h)))
                    cases.append((hh, tot))
                    break
                kinds = set()
                self.seq_ops_kinds(p.seq, kinds)
                if kinds == {"def"}:
                    # what was there before stays
                    h0, v0 = self.dget(DMap(d.parts[: d.parts.index(p)]), key)
                    if h0 is not False:
                        cases.append((True if h0 is True else rv(h0), v0))
                    cases.append((h, v))
                    break
                cases.append((h, v))
            elif isinstance(p, Acc):
                cases.append(self.accread(p.k, key))
        if not cases:
            return False, None
        if cases[0][0] is True:
            return True, cases[0][1]
        has = z3.simplify(z3.Or(*[rv(c) for c, _ in cases]))
        if z3.is_true(has):
            has = True
        elif z3.is_false(has):
            return False, None
        neg, out = [], []
        for c, v in cases:
            out.append((zand([rv(c)] + neg), v))
            neg.append(z3.Not(rv(c)))
        return has, self.merge(out) if len(out) > 1 else out[0][1]

    def ops_lookup(self, seq, key):
        kinds = set()
        self.seq_ops_kinds(seq, kinds)
        if kinds == {"add"}:
            tot = self.hom(seq, lambda o: zite(rv(self.eq(o[1], key)), o[2], 0))
            h = self.member_ops(key, seq)
            return h, tot, True
        if kinds == {"set"} and all(isinstance(p, Unit) for p in seq.parts):
            has, val = False, None
            for p in seq.parts:
                e = rv(self.eq(p.v[1], key))
                val = p.v[2] if val is None else self.merge([(e, p.v[2]), (z3.Not(e), val)])
                has = e if has is False else z3.Or(has, e)
            return has, val, False
        if kinds in ({"set"}, {"def"}):
            p, g = self.simple_log(seq)
            if p is not None:
                inj = self.injective(p, g)
                if not inj and kinds == {"def"}:
                    raise Unsupported("first of repeated keys")
                lk = self.make_look(p.n, p.i, p.v[1], last=not inj, guard=g)
                kf = self.keyterms(key)
                return lk.has(kf), subst(p.v[2], [(p.i, lk.idx(kf))]), False
            raise Unsupported("lookup in an overwriting update log")
        raise Unsupported("lookup in a mixed update log")

    def seq_ops_kinds(self, seq, out):
        for p in seq.parts:
            if isinstance(p, Unit):
                out.add(p.v[0])
            elif isinstance(p, Pull):
                out.add(p.v[0])
            elif isinstance(p, Flat):
                self.seq_ops_kinds(p.s, out)
            elif isinstance(p, Cond):
                for c, s in p.cases:
                    self.seq_ops_kinds(s, out)

    def member_ops(self, key, seq):
        class _:
            pass

        def mp(s):
            ps = []
            for p in s.parts:
                if isinstance(p, Unit):
                    ps.append(Unit(p.v[1]))
                elif isinstance(p, Pull):
                    ps.append(Pull(p.n, p.i, p.v[1]))
                elif isinstance(p, Flat):
                    ps.append(Flat(p.n, p.i, mp(p.s)))
                elif isinstance(p, Cond):
                    ps.append(Cond([(c, mp(t)) for c, t in p.cases]))
            return Seq(ps)

        return self.member(key, mp(seq))

    def mapseq(self, s, f):
        """map a pure value function over a sequence (no forking inside f)"""
        ps = []
        for p in s.parts:
            if isinstance(p, Unit):
                ps.append(Unit(f(p.v)))
            elif isinstance(p, Pull):
                ps.append(Pull(p.n, p.i, f(p.v)))
            elif isinstance(p, Flat):
                ps.append(Flat(p.n, p.i, self.mapseq(p.s, f)))
            elif isinstance(p, Cond):
                ps.append(Cond([(c, self.mapseq(t, f)) for c, t in p.cases]))
            else:
                raise Unsupported("map over accumulator")
        return Seq(ps, s.kind)

    def accread(self, k, key):
        """read of a dict accumulator inside a loop body: (has, value-or-zero) tagged constants"""
        if not hasattr(self, "accreads"):
            self.accreads = {}
            self.accreadlist = []
        for kk, key2, h, c in self.accreadlist:
            if kk == k and same(key, key2):
                return h, c
        h, c = z3.Bool(f"acch!{self.uid()}"), z3.Int(f"accv!{self.uid()}")
        self.accreads[c.get_id()] = (k, key, True)
        self.accreads[h.get_id()] = (k, key, False)
        self.accreadlist.append((k, key, h, c))
        return h, c

    def keyterms(self, key):
        key = self.res(key)
        if isinstance(key, Opq):
            return [key.t]
        if isinstance(key, (bool, int, float)) or is_z3(key):
            return [rv(key)]
        if isinstance(key, NT):
            key = key.vals
        if isinstance(key, tuple):
            out = []
            for k in key:
                out += self.keyterms(k)
            return out
        if isinstance(key, (Ref, Seq)):
            return [self.term(key)]
        return [self.const(key)]

    def make_look(self, n, i, key, params=(), last=False, guard=None):
        """lookup functions for keys key(i), i<n with guard(i) (distinct unless `last`, then the index of the last one); quantified axioms"""
        kt = self.keyterms(key)
        guard = z3.BoolVal(True) if guard is None else z3.simplify(guard)
        ps = [c for c in {c.get_id(): c for t in kt + [rv(n), guard] for c in zconsts(t)}.values() if c.get_id() in self.idxconsts and c.get_id() != i.get_id()]
        ckey = ("look", last, tuple(z3.substitute(t, (i, z3.Int("%i"))).sexpr() for t in kt), z3.simplify(rv(n)).sexpr(), z3.substitute(guard, (i, z3.Int("%i"))).sexpr())
        if ckey in self.binders:
            return self.binders[ckey]
        nm = f"d{len(self.binders)}"
        sorts = [t.sort() for t in kt]
        H = z3.Function(nm + "_has", *[z3.IntSort()] * len(ps), *sorts, z3.BoolSort())
        X = z3.Function(nm + "_idx", *[z3.IntSort()] * len(ps), *sorts, z3.IntSort())
        lk = Look(H, X, ps)
        lk.guarded = not z3.is_true(guard)
        kv = [z3.Const(f"{nm}k{t}", s) for t, s in enumerate(sorts)]
        n = rv(n)
        h, x = H(*ps, *kt), X(*ps, *kt)
        ax1 = z3.Implies(z3.And(i >= 0, i < n, guard), z3.And(h, x >= i if last else x == i))
        if all(self.canpat(t, i) for t in kt):
            self.axioms.append(z3.ForAll(ps + [i], ax1, patterns=[z3.MultiPattern(*kt)] if kt else []))
        else:
            self.axioms.append(z3.ForAll(ps + [i], ax1))
        hk, xk = H(*ps, *kv), X(*ps, *kv)
        back = [z3.substitute(t, (i, xk)) == k for t, k in zip(kt, kv)]
        self.axioms.append(
            z3.ForAll(ps + kv, z3.Implies(hk, z3.And(xk >= 0, xk < n, z3.substitute(guard, (i, xk)), *back)), patterns=[hk])
        )
        self.binders[ckey] = lk
        self.lookups.append(((i, kt), lk))
        return lk

    def canpat(self, t, i):
        return z3.is_app(t) and t.decl().kind() == z3.Z3_OP_UNINTERPRETED and t.num_args() > 0 and mentions(t, i)

    def dset(self, d, key, val):
        """dict content after d[key] = val"""
        d = self.todict(d)
        key = self.res(key)
        parts = list(d.parts)
        if parts and isinstance(parts[0], Acc):
            pend = self.pending_add(d, key, val)
            op = pend if pend is not None else ("set", key, val)
            return DMap(parts[:1] + self.addop(parts[1:], op), d.default)
        if all(isinstance(p, DEnt) for p in parts):
            for t, p in enumerate(parts):
                if self.decide(self.eq(p.k, key)):
                    parts[t] = DEnt(p.k, val)
                    return DMap(parts, d.default)
            return DMap(parts + [DEnt(key, val)], d.default)
        if len(parts) == 1 and isinstance(parts[0], DPull):
            kf = self.keyterms(key)
            p = parts[0]
            has = z3.And(p.look.has(kf), z3.substitute(p.g, (p.i, p.look.idx(kf))))
            if self.decide(has):
                ix = p.look.idx(kf)
                nv = self.merge([(p.i == ix, val), (p.i != ix, p.v)])
                return DMap([DPull(p.n, p.i, p.k, nv, p.look, p.g)], d.default)
            return DMap(parts + [DEnt(key, val)], d.default)
        if any(isinstance(p, DPull) for p in parts) and all(isinstance(p, (DEnt, DPull)) for p in parts):
            kf = self.keyterms(key)
            for t, p in enumerate(parts):
                if isinstance(p, DEnt):
                    if self.decide(self.eq(p.k, key)):
                        parts[t] = DEnt(p.k, val)
                        return DMap(parts, d.default)
                else:
                    has = z3.And(p.look.has(kf), z3.substitute(p.g, (p.i, p.look.idx(kf))))
                    if self.decide(has):
                        ix = p.look.idx(kf)
                        nv = self.merge([(p.i == ix, val), (p.i != ix, p.v)])
                        parts[t] = DPull(p.n, p.i, p.k, nv, p.look, p.g)
                        return DMap(parts, d.default)
            return DMap(parts + [DEnt(key, val)], d.default)
        return DMap(self.addop(parts, ("set", key, val)), d.default)

    def addop(self, parts, op):
        if parts and isinstance(parts[-1], DOps):
            return parts[:-1] + [DOps(Seq(list(parts[-1].seq.parts) + [Unit(op)]))]
        return parts + [DOps(Seq([Unit(op)]))]

    def pending_add(self, d, key, val):
        """val = AccGet(key)+delta ?  (reads of dict accumulators produce tagged constants)"""
        tag = getattr(self, "accreads", {})
        acc = d.parts[0].k
        if not is_z3(val):
            return None
        for c in zconsts(val):
            info = tag.get(c.get_id())
            if info and info[0] == acc and info[2]:
                e = self.eq(info[1], key)
                if e is True or self.valid(rv(e)):
                    delta = z3.simplify(val - (toreal(c) if z3.is_real(val) else c))
                    if not mentions(delta, c):
                        return ("add", key, delta)
        return None

    def deq(self, a, b):
        pa, pb = a.parts, b.parts
        if all(isinstance(p, DEnt) for p in pa) and all(isinstance(p, DEnt) for p in pb):
            if len(pa) != len(pb):
                return False
            out = []
            for p in pa:
                h, v = self.dget(b, p.k)
                if h is False:
                    return False
                out += [rv(h), rv(self.eq(p.v, v))]
            return zand(out)
        if len(pa) == 1 and len(pb) == 1 and isinstance(pa[0], (DPull, DOps)) and isinstance(pb[0], (DPull, DOps)):
            # equal entries in the same order suffice
            e = self.seqeq(self.opseq(pa[0]), self.opseq(pb[0]))
            if isinstance(pa[0], DOps) or isinstance(pb[0], DOps) or e is True or self.valid(rv(e)):
                return e
        # extensional: every key of a is in b with equal value and vice versa
        return zand([rv(self.dsub(a, b)), rv(self.dsub(b, a))])

    def opseq(self, p):
        if isinstance(p, DOps):
            return p.seq
        return Seq([Pull(p.n, p.i, ("set", p.k, p.v))])

    def dsub(self, a, b):
        def f(kv):
            h, v = self.dget(b, kv[0])
            if h is False:
                return False
            return zand([rv(h), rv(self.eq(kv[1], v))])

        return self.forall(self.ditems(a), f)

    # ------------------------------------------------------------------ terms of values (uninterpreted calls)
    def term(self, v):
        v = self.res(v)
        if isinstance(v, Opq):
            return v.t
        if isinstance(v, bool) or (is_z3(v) and z3.is_bool(v)):
            return z3.Function("inj_b", z3.BoolSort(), U)(rv(v))
        if isinstance(v, int) or (is_z3(v) and z3.is_int(v)):
            return self.inj("inj_i", z3.IntSort())(rv(v))
        if isinstance(v, float) or (is_z3(v) and z3.is_real(v)):
            return self.inj("inj_r", z3.RealSort())(rv(v))
        if isinstance(v, NT):
            return self.fterm("nt_" + v.cls.__name__, [self.term(x) for x in v.vals])
        if isinstance(v, tuple):
            return self.fterm(f"tup{len(v)}", [self.term(x) for x in v])
        if isinstance(v, (list,)):
            v = Seq([Unit(x) for x in v])
        if isinstance(v, dict):
            v = self.todict(v)
        d = self.deref(v)
        if isinstance(d, Seq):
            return self.seqterm(d)
        if isinstance(d, DMap):
            return self.fterm("dict", [self.seqterm(self.ditems(d))])
        if isinstance(d, tuple) and d and isinstance(d[0], str) and d[0] == "inst":
            return self.fterm(f"obj_{d[1].__name__}", [self.term(x) for _, x in sorted(d[2].items())] if d[2] else [])
        if isinstance(v, (Func, BM, Bi)):
            raise Unsupported("function passed to an external call")
        return self.const(v)

    def inj(self, name, sort):
        f = z3.Function(name, sort, U)
        if not hasattr(self, "_inj"):
            self._inj = set()
            self.injections = {}
        if name not in self._inj:
            self._inj.add(name)
            g = z3.Function(name + "_inv", U, sort)
            x = z3.Const("x", sort)
            a = z3.ForAll([x], g(f(x)) == x, patterns=[f(x)])
            self.injections[a.get_id()] = name
            self.axioms.append(a)
        return f

    def fterm(self, name, args, sort=None):
        sort = U if sort is None else sort
        if not args:
            return z3.Const(name, sort)
        return z3.Function(name, *[a.sort() for a in args], sort)(*args)

    def seqterm(self, s):
        parts = []
        for p in s.parts:
            if isinstance(p, Unit):
                parts.append(self.fterm("unit", [self.term(p.v)]))
            elif isinstance(p, Pull):
                parts.append(self.binder("pullterm", p.n, p.i, self.term(p.v), U))
            elif isinstance(p, Flat):
                parts.append(self.binder("flatterm", p.n, p.i, self.seqterm(p.s), U))
            elif isinstance(p, Cond):
                t = z3.Const("nil", U)
                for c, x in reversed(p.cases):
                    t = z3.If(c, self.seqterm(x), t)
                parts.append(t)
            else:
                raise Unsupported("accumulator passed to an external call")
        t = z3.Const("nil", U)
        for p in reversed(parts):
            t = self.fterm("cat", [p, t])
        return t

    # ------------------------------------------------------------------ proving
    def lemmas(self, terms, depth=0):
        """instances of the fold laws for the ground fold applications in `terms` (valid under the path condition)"""
        out = []
        done = set()
        frontier = list(terms)
        allapps = []
        for rnd in range(3):
            apps = {}
            for t in frontier:
                for a in zapps(t, lambda d: d.name() in self.binfo):
                    if not _hasvar(a) and a.get_id() not in done:
                        apps[a.get_id()] = a
            if not apps or len(done) > 60:
                break
            done |= set(apps)
            apps = list(apps.values())
            named = {q.get_id(): q for t in terms for q in zapps(t, lambda d: d.name().endswith("_idx")) if not _hasvar(q)}
            new = self._lemma_round(apps, allapps, depth, list(named.values()))
            allapps += apps
            out += new
            frontier = new
        return out

    def _zero(self, facts, e, depth):
        """facts |- e == 0 (with the fold laws for the folds in e)"""
        return self._implied(facts, e == 0, depth)

    def _implied(self, facts, goal, depth, timeout=2000):
        look = zapps(z3.And(z3.Not(goal), *facts), lambda d: d.name().endswith(("_idx", "_has")))
        if self.check(facts + [z3.Not(goal)], timeout=timeout, feas="q" if look else True) == z3.unsat:
            return True
        if depth < 2 and zapps(goal, lambda d: d.name() in self.binfo):
            base = self.pc
            self.pc = list(facts)
            try:
                lem = self.lemmas([goal], depth + 1)
                return bool(lem) and self.check(facts + lem + [z3.Not(goal)], timeout=timeout, feas=True) == z3.unsat
            finally:
                self.pc = base
        return False

    def _lemma_round(self, apps, old, depth, named=()):
        out = []
        facts = list(self.pc)
        for a in apps:
            info = self.binfo[a.decl().name()]
            if info["kind"] != "sum":
                continue
            n = a.arg(0)
            k = self.fresh_idx("l")
            e = z3.simplify(self.inst(info, k, a))
            rng = [k >= 0, k < n]
            out.append(z3.Implies(n <= 0, a == 0))
            # the instance may have a closed form
            r = rv(self.bsum(n, k, e))
            if not (z3.is_app(r) and r.decl().name() in self.binfo):
                out.append(z3.Implies(n >= 0, toreal(a) == toreal(r) if a.sort() != r.sort() else a == r))
                continue
            if self._implied(facts + rng, e >= 0, depth):
                out.append(z3.Implies(n >= 0, a >= 0))
                if self._implied(facts + rng, e <= 0, depth):
                    out.append(a == 0)
                    continue
            if z3.is_int(a) and self._implied(facts + rng, e <= 1, 9):
                out.append(z3.Implies(n >= 0, a <= n))
            # support: all terms vanish except at an index named in the query
            cands = [a.arg(t) for t in range(1, a.num_args())]
            cands += [c for c in self.idxcands(e, k) if all(not z3.eq(c, x) for x in cands)]
            for p in cands[:4]:
                if not z3.is_int(p):
                    continue
                if self._zero(facts + rng + [k != p], e, depth):
                    ep = z3.substitute(e, (k, p))
                    out.append(a == z3.If(z3.And(p >= 0, p < n), ep, coerce0(ep)))
                    break
            else:
                # ... or at the positions looked up in the query
                ps = (cands + [c for c in named if all(not z3.eq(c, x) for x in cands)])[:8]
                ps = [p for p in ps if z3.is_int(p)]
                if len(ps) > 1 and self._zero(facts + rng + [k != p for p in ps], e, depth):
                    tot = 0
                    for t, p in enumerate(ps):
                        ep = z3.substitute(e, (k, p))
                        tot = zadd(tot, z3.If(z3.And(p >= 0, p < n, *[p != q for q in ps[:t]]), ep, coerce0(ep)))
                    out.append(a == tot)
        pairs = list(itertools.combinations(apps, 2)) + [(x, y) for x in old for y in apps]
        if len(pairs) > 200:
            pairs = pairs[:200]
        for x, y in pairs:
            ix, iy = self.binfo[x.decl().name()], self.binfo[y.decl().name()]
            if (ix["kind"] != iy["kind"] or x.sort() != y.sort()) and not (ix["kind"] == iy["kind"] == "sum"):
                continue
            nx, ny = x.arg(0), y.arg(0)
            if ix["kind"] == "sum" and z3.eq(x.decl(), y.decl()):
                # step law f(n+1) = f(n) + e(n)
                for p, q in ((x, y), (y, x)):
                    d = z3.simplify(p.arg(0) - q.arg(0))
                    if z3.is_int_value(d) and d.as_long() == 1 and all(z3.eq(p.arg(t), q.arg(t)) for t in range(1, p.num_args())):
                        out.append(z3.Implies(q.arg(0) >= 0, p == q + self.inst(ix, q.arg(0), q)))
                # monotone when the terms are non-negative
                if not z3.eq(nx, ny) and all(z3.eq(x.arg(t), y.arg(t)) for t in range(1, x.num_args())):
                    k = self.fresh_idx("l")
                    if self._implied(facts + [k >= 0, z3.Or(k < nx, k < ny)], self.inst(ix, k, x) >= 0, depth):
                        for p, q in ((x, y), (y, x)):
                            out.append(z3.Implies(z3.And(p.arg(0) >= 0, p.arg(0) <= q.arg(0)), p <= q))
                            out.append(z3.Implies(z3.And(p.arg(0) >= 0, p.arg(0) < q.arg(0)), p + self.inst(ix, p.arg(0), p) <= q))
            k = self.fresh_idx("l")
            if not z3.eq(nx, ny) and self.check(facts + [nx != ny], timeout=2000, feas=True) != z3.unsat:
                continue
            ex, ey = self.inst(ix, k, x), self.inst(iy, k, y)
            if ex.sort() != ey.sort():
                ex, ey = toreal(ex), toreal(ey)
            if self._implied(facts + [k >= 0, k < nx], ex == ey, depth):
                out.append(toreal(x) == toreal(y) if x.sort() != y.sort() else x == y)
        return out

    def idxcands(self, e, k):
        """positions named by lookups: for an atom key(k) == c, the position of key c"""
        out = []
        for q in zapps(e, lambda d: d.kind() == z3.Z3_OP_EQ):
            for l, r in ((q.arg(0), q.arg(1)), (q.arg(1), q.arg(0))):
                if mentions(l, k) and not mentions(r, k):
                    for ks, lk in self.lookups:
                        i, kt = ks
                        if len(kt) == 1 and not lk.params and z3.eq(z3.substitute(kt[0], (i, k)), l):
                            out.append(lk.idx([r]))
        return out

    def inst(self, info, k, app):
        sub = [(info["i"], k)] + [(p, app.arg(t + 1)) for t, p in enumerate(info["params"])]
        return z3.substitute(info["e"], *sub)

    def split_goal(self, g, hyps, out):
        """split conjunctions, skolemise universals, assume antecedents"""
        g = z3.simplify(g) if not z3.is_quantifier(g) else g
        if z3.is_true(g):
            return
        if z3.is_and(g):
            for c in g.children():
                self.split_goal(c, hyps, out)
        elif z3.is_quantifier(g) and g.is_forall():
            vs = [self.fresh_idx("g") if g.var_sort(k) == z3.IntSort() else z3.Const(f"g!{self.uid()}", g.var_sort(k)) for k in range(g.num_vars())]
            self.split_goal(z3.substitute_vars(g.body(), *reversed(vs)), hyps, out)
        elif z3.is_implies(g):
            self.split_goal(g.arg(1), hyps + [g.arg(0)], out)
        elif z3.is_or(g):
            ch = g.children()
            qs = [c for c in ch if z3.is_quantifier(c) and c.is_forall() or z3.is_and(c)]
            if len(qs) == 1:
                rest = [z3.Not(c) for c in ch if c is not qs[0]]
                self.split_goal(qs[0], hyps + rest, out)
            else:
                out.append((hyps, g))
        elif z3.is_not(g) and z3.is_quantifier(g.arg(0)) and g.arg(0).is_exists():
            q = g.arg(0)
            vs = [self.fresh_idx("g") if q.var_sort(k) == z3.IntSort() else z3.Const(f"g!{self.uid()}", q.var_sort(k)) for k in range(q.num_vars())]
            self.split_goal(z3.Not(z3.substitute_vars(q.body(), *reversed(vs))), hyps, out)
        elif z3.is_eq(g) and z3.is_bool(g.arg(0)) and (_hasq(g)):
            a, b = g.children()
            self.split_goal(z3.Implies(a, b), hyps, out)
            self.split_goal(z3.Implies(b, a), hyps, out)
        elif z3.is_app_of(g, z3.Z3_OP_ITE) and _hasq(g):
            c, a, b = g.children()
            self.split_goal(a, hyps + [c], out)
            self.split_goal(b, hyps + [z3.Not(c)], out)
        else:
            out.append((hyps, g))

    def prove_report(self, g, timeout=8000):
        """-> list of (subgoal, 'proved'|'refuted'|'unknown', model)"""
        raw, subs = [], []
        self.split_goal(rv(g), [], raw)
        for hyps, sg in raw:
            # a fold at a looked-up position: key present / absent are separate cases
            at = {(x.decl().name(), tuple(c.get_id() for c in x.children())) for a in zapps(sg, lambda d: d.name() in self.binfo)
                  for c in a.children() for x in zapps(c, lambda d: d.name().endswith("_idx"))}
            hs = [h for h in zapps(sg, lambda d: d.name().endswith("_has")) if not _hasvar(h)
                  and (h.decl().name()[:-4] + "_idx", tuple(c.get_id() for c in h.children())) in at][:2]
            for bits in itertools.product([True, False], repeat=len(hs)):
                extra = [h if b else z3.Not(h) for h, b in zip(hs, bits)]
                subs.append((hyps + extra, z3.simplify(z3.substitute(sg, *[(h, z3.BoolVal(b)) for h, b in zip(hs, bits)])) if hs else sg))
        rep = []
        for hyps, sg in subs:
            base = list(self.pc)
            self.pc = base + hyps
            try:
                r = self.check(self.pc + [z3.Not(sg)], timeout)
                if r != z3.unsat:
                    lem = self.lemmas([sg] + hyps + [c for c in self.pc if not _hasq(c)])
                    if lem:
                        r = self.check(self.pc + lem + [z3.Not(sg)], timeout)
                m = self.last_model if r == z3.sat else None
                if r == z3.sat and any(zapps(c, lambda d: d.name() in self.binfo) for c in [sg] + self.pc):
                    r = z3.unknown  # folds are only axiomatised: a model is a hint, not a refutation
                rep.append((sg, {"unsat": "proved", "sat": "refuted", "unknown": "unknown"}[str(r)], m))
            finally:
                self.pc = base
        return rep

    def prove(self, g, timeout=5000):
        return all(r[1] == "proved" for r in self.prove_report(g, timeout))


class Look:
    guarded = False

    def __init__(self, H, X, params):
        self.H, self.X, self.params = H, X, list(params)

    def has(self, kf):
        return self.H(*self.params, *self._co(kf))

    def idx(self, kf):
        return self.X(*self.params, *self._co(kf))

    def _co(self, kf):
        out = []
        dom = [self.H.domain(i) for i in range(self.H.arity())][len(self.params):]
        if len(dom) != len(kf):
            raise Unsupported("key of a different shape")
        for t, s in zip(kf, dom):
            if t.sort() != s:
                if s == z3.RealSort():
                    t = toreal(t)
                else:
                    raise Unsupported("key sort")
            out.append(t)
        return out

    def subst(self, pairs):
        r = Look(self.H, self.X, [z3.substitute(p, *pairs) for p in self.params])
        r.guarded = self.guarded
        return r


# ---------------------------------------------------------------------- helpers
_ALIVE, _MEMO = [], {}  # terms kept alive so that their ids stay theirs


def _anysub(e, name, local):
    """does some subterm satisfy `local` (cached per subterm)"""
    memo = _MEMO.setdefault(name, {})
    r = memo.get(e.get_id())
    if r is not None:
        return r
    _ALIVE.append(e)
    st = [(e, False)]
    while st:
        x, done = st.pop()
        k = x.get_id()
        if done:
            memo[k] = any(memo[c.get_id()] for c in ([x.body()] if z3.is_quantifier(x) else x.children()))
        elif k not in memo:
            if local(x):
                memo[k] = True
            else:
                st.append((x, True))
                st.extend((c, False) for c in ([x.body()] if z3.is_quantifier(x) else x.children()) if c.get_id() not in memo)
    return memo[e.get_id()]


def _hasq(e):
    return _anysub(e, "q", z3.is_quantifier)


def _threshold(c, i):
    """c is i < t (t, True) or its negation (t, False), t free of i"""
    if z3.is_not(c):
        r = _threshold(c.arg(0), i)
        return None if r is None else (r[0], not r[1])
    if not (z3.is_le(c) or z3.is_ge(c) or z3.is_lt(c) or z3.is_gt(c)) or not z3.is_int(c.arg(0)):
        return None
    a, b = c.children()
    if a.get_id() == i.get_id() and not mentions(b, i):
        if z3.is_lt(c):
            return b, True
        if z3.is_le(c):
            return z3.simplify(b + 1), True
        if z3.is_ge(c):
            return b, False
        return z3.simplify(b + 1), False
    if b.get_id() == i.get_id() and not mentions(a, i):
        if z3.is_gt(c):
            return a, True
        if z3.is_ge(c):
            return z3.simplify(a + 1), True
        if z3.is_le(c):
            return a, False
        return z3.simplify(a + 1), False
    return None


def _nl(x):
    if z3.is_mul(x) and sum(not (z3.is_int_value(c) or z3.is_rational_value(c)) for c in x.children()) > 1:
        return True
    return (z3.is_div(x) or z3.is_idiv(x) or z3.is_mod(x)) and not (z3.is_int_value(x.arg(1)) or z3.is_rational_value(x.arg(1)))


def _nonlinear(e):
    return _anysub(e, "nl", _nl)


def _hasvar(e):
    return _anysub(e, "v", z3.is_var)


def zand(cs):
    cs = [rv(c) for c in cs]
    cs = [c for c in cs if not z3.is_true(c)]
    if not cs:
        return z3.BoolVal(True)
    if len(cs) == 1:
        return cs[0]
    return z3.And(*cs)


def toreal(x):
    x = rv(x)
    if z3.is_bool(x):
        x = z3.If(x, z3.IntVal(1), z3.IntVal(0))
    return z3.ToReal(x) if z3.is_int(x) else x


def zadd(a, b):
    if not is_z3(a) and not is_z3(b):
        return a + b
    if not is_z3(a) and a == 0:
        return b
    if not is_z3(b) and b == 0:
        return a
    a, b = rv(a), rv(b)
    if a.sort() != b.sort():
        a, b = toreal(a), toreal(b)
    return z3.simplify(a + b)


def zsub(a, b):
    if not is_z3(a) and not is_z3(b):
        return a - b
    if not is_z3(b) and b == 0:
        return a
    a, b = rv(a), rv(b)
    if a.sort() != b.sort():
        a, b = toreal(a), toreal(b)
    return z3.simplify(a - b)


def zite(c, a, b):
    c = rv(c)
    c = z3.simplify(c)
    if z3.is_true(c):
        return a
    if z3.is_false(c):
        return b
    a, b = rv(a), rv(b)
    if a.sort() != b.sort():
        a, b = toreal(a), toreal(b)
    return z3.If(c, a, b)


def is_zero(e):
    return z3.is_int_value(e) and e.as_long() == 0 or z3.is_rational_value(e) and e.as_fraction() == 0


def coerce0(x):
    return z3.RealVal(0) if z3.is_real(x) else z3.IntVal(0)


def eq_index(c, i):
    """c is (i == k) with k free of i -> k"""
    c = z3.simplify(c)
    if z3.is_eq(c):
        a, b = c.children()
        if z3.eq(a, i) and not mentions(b, i):
            return b
        if z3.eq(b, i) and not mentions(a, i):
            return a
        if z3.is_int(a):
            # linear: solve a - b == 0 for coefficient +-1
            d = z3.simplify(a - b, som=True)
            for sgn in (1, -1):
                k = z3.simplify(i - sgn * d, som=True)
                if not mentions(k, i):
                    # i - sgn*(a-b) free of i  => i == that
                    return k
    return None


def same(a, b):
    if a is b:
        return True
    if type(a) is not type(b):
        return False
    if is_z3(a):
        return z3.eq(a, b)
    if isinstance(a, (int, float, str, bool, type(None))):
        return a == b
    if isinstance(a, Opq):
        return z3.eq(a.t, b.t)
    if isinstance(a, Ref):
        return a.id == b.id
    if isinstance(a, NT):
        return a.cls is b.cls and all(same(x, y) for x, y in zip(a.vals, b.vals))
    if isinstance(a, tuple):
        return len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    if isinstance(a, (Seq, DMap)):
        return len(a.parts) == len(b.parts) and all(same(x, y) for x, y in zip(a.parts, b.parts))
    if isinstance(a, Unit):
        return same(a.v, b.v)
    if isinstance(a, DEnt):
        return same(a.k, b.k) and same(a.v, b.v)
    if isinstance(a, dict):
        return list(a) == list(b) and all(same(a[k], b[k]) for k in a)
    if isinstance(a, Acc):
        return a.k == b.k
    if isinstance(a, (Pull, Flat)):
        return z3.eq(a.i, b.i) and z3.eq(a.n, b.n) and same(a.v if isinstance(a, Pull) else a.s, b.v if isinstance(b, Pull) else b.s)
    if isinstance(a, (Cond, G)):
        return len(a.cases) == len(b.cases) and all(z3.eq(rv(c), rv(d)) and same(s, t) for (c, s), (d, t) in zip(a.cases, b.cases))
    if isinstance(a, DPull):
        return z3.eq(a.i, b.i) and z3.eq(a.n, b.n) and same(a.k, b.k) and same(a.v, b.v)
    if isinstance(a, DOps):
        return same(a.seq, b.seq)
    try:
        return bool(a == b)
    except Exception:
        return False
