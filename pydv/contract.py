"""Contract language: a contract is a Python function over typed arguments that calls code from /repo and states
`require(...)` (precondition) and `ensure(name, ...)` (postcondition).  The same text is

  * executed symbolically by the pydv executor, for all inputs of the given types (proof), and
  * executed by CPython on the real code (replay of counterexamples, bounded runs).
"""
import functools
import math
import random
from .values import *  # noqa
from .values import z3, Fraction
from .ex import MODELS, CLASSES, PyRaise


class Skip(Exception):
    """precondition not met by a concrete input"""


class Violated(Exception):
    def __init__(self, name, detail=""):
        super().__init__(name, detail)
        self.name, self.detail = name, detail


# ------------------------------------------------------------------ require / ensure
def require(cond):
    if not cond:
        raise Skip()


def ensure(name, cond, detail=None):
    COUNT[name] = COUNT.get(name, 0) + 1
    if not cond:
        raise Violated(name, "" if detail is None else str(detail)[:2000])


def ghost(f):
    """marks a helper used only by contracts"""
    return f


COUNT = {}


def _m_require(ex, a, k):
    c = ex.truth(a[0])
    ex.assume(rv(c) if not isinstance(c, bool) else c)
    if not isinstance(c, bool) and not ex.feasible(z3.BoolVal(True) if not ex.pc else ex.pc[-1]):
        from .values import Infeasible

        raise Infeasible()


def _m_ensure(ex, a, k):
    name, cond = a[0], a[1]
    base = len(ex.pc)
    c = ex.truth(cond)
    ex.obligation(name, c)


MODELS[require] = _m_require
MODELS[ensure] = _m_ensure


def close(a, b, tol=1e-9):
    """real equality up to rounding (exact equality when reasoning over the reals)"""
    return abs(a - b) <= tol * (1 + abs(a) + abs(b))


def _m_close(ex, a, k):
    x, y = ex.num(a[0]), ex.num(a[1])
    return ex.eq(x, y)


MODELS[close] = _m_close


def implies(a, b):
    return (not a) or b


def _m_implies(ex, a, k):
    p, q = ex.truth(a[0]), ex.truth(a[1])
    return z3.simplify(z3.Implies(rv(p), rv(q)))


MODELS[implies] = _m_implies


# ------------------------------------------------------------------ argument types
class T:
    def sym(self, ex, name):
        raise NotImplementedError

    def conc(self, m, v, ctx):
        raise NotImplementedError

    def rand(self, r, ctx):
        raise NotImplementedError


class Int(T):
    def __init__(self, lo=None, hi=None, rnd=None):
        self.lo, self.hi, self.rnd = lo, hi, rnd

    def sym(self, ex, name):
        v = ex.skolem(name, z3.IntSort())
        ex.range_fact(v, self.lo, self.hi)
        return v

    def conc(self, m, v, ctx):
        return mint(m, v)

    def rand(self, r, ctx):
        lo = self.lo if self.lo is not None else -6
        hi = self.hi if self.hi is not None else lo + r.choice([3, 8, 8, 30])
        if self.rnd:
            return self.rnd(r)
        lits = [x + d for x in ctx.ints for d in (-1, 0, 1)
                if (self.lo is None or x + d >= self.lo) and (self.hi is None or x + d <= self.hi)]
        if lits and r.random() < 0.2:
            return r.choice(lits)
        if r.random() < 0.15:
            return r.choice([lo, min(lo + 1, hi), hi])
        return r.randint(lo, hi)


class Real(T):
    def __init__(self, lo=None, hi=None):
        self.lo, self.hi = lo, hi

    def sym(self, ex, name):
        v = ex.skolem(name, z3.RealSort())
        ex.range_fact(v, self.lo, self.hi)
        return v

    def conc(self, m, v, ctx):
        x = m.eval(rv(v), model_completion=True)
        if z3.is_algebraic_value(x):
            x = x.approx(20)
        return float(x.as_fraction())

    def rand(self, r, ctx):
        lo = self.lo if self.lo is not None else -3.0
        hi = self.hi if self.hi is not None else lo + 6.0
        k = r.random()
        if k < 0.1:
            return float(lo)
        if k < 0.2:
            return float(hi)
        if k < 0.5:
            return lo + (hi - lo) * r.randint(0, 8) / 8
        return r.uniform(lo, hi)


class Bool(T):
    def sym(self, ex, name):
        return ex.skolem(name, z3.BoolSort())

    def conc(self, m, v, ctx):
        return z3.is_true(m.eval(rv(v), model_completion=True))

    def rand(self, r, ctx):
        return r.random() < 0.5


class Const(T):
    def __init__(self, v):
        self.v = v

    def sym(self, ex, name):
        return self.v

    def conc(self, m, v, ctx):
        return self.v

    def rand(self, r, ctx):
        return self.v


class OneOf(T):
    """one of finitely many concrete values"""

    def __init__(self, *vals):
        self.vals = vals

    def sym(self, ex, name):
        c = ex.skolem(name, z3.IntSort())
        ex.range_fact(c, 0, len(self.vals) - 1)
        return G([(c == k if k < len(self.vals) - 1 else c >= k, v) for k, v in enumerate(self.vals)])

    def conc(self, m, v, ctx):
        if isinstance(v, G):
            for c, x in v.cases:
                if z3.is_true(m.eval(c, model_completion=True)):
                    return x
        return v

    def rand(self, r, ctx):
        return r.choice(self.vals)


class Opaque(T):
    """a value used only through its identity/equality and external operations; make(k) builds the k-th one"""

    def __init__(self, ty, make=None, rand=None, cls=None):
        self.ty, self.make, self._rand = ty, make, rand
        if cls is not None:
            CLASSES[ty] = cls

    def sym(self, ex, name):
        return Opq(ex.skolem(name, U), self.ty)

    def conc(self, m, v, ctx):
        t = str(m.eval(v.t, model_completion=True))
        ks = ctx.opq.setdefault(self.ty, {})
        if t not in ks:
            ks[t] = len(ks)
        return self.make(ks[t])

    def rand(self, r, ctx):
        if self._rand:
            return self._rand(r)
        return self.make(r.randint(0, ctx.size))


class ListOf(T):
    def __init__(self, t, min=0, kind="list", max=None):
        self.t, self.min, self.kind, self.max = t, min, kind, max

    def seq(self, ex, name):
        if ex.bounded:
            n = ex.bounded_length(self.min, self.max)
            return Seq([Unit(self.t.sym(ex, f"{name}_{k}")) for k in range(n)])
        n = ex.skolem(name + "_n", z3.IntSort())
        ex.range_fact(n, self.min, self.max)
        i = ex.fresh_idx("a")
        ex.idx.append(i)
        v = self.t.sym(ex, name + "_e")
        ex.idx.pop()
        return Seq([Pull(n, i, v)])

    def sym(self, ex, name):
        s = self.seq(ex, name)
        if self.kind == "tuple":
            if all(isinstance(p, Unit) for p in s.parts):
                return tuple(p.v for p in s.parts)
            return Seq(s.parts, "tuple")
        if ex.idx:
            return s
        return ex.newlist(s)

    def conc(self, m, v, ctx):
        out = [self.t.conc(m, x, ctx) for x in melems(m, v, ctx)]
        return tuple(out) if self.kind == "tuple" else out

    def rand(self, r, ctx):
        hi = min_(self.max, max(self.min, ctx.size))
        n = r.randint(self.min, max(self.min, hi))
        out = []
        for _ in range(n):
            out.append(r.choice(out) if out and r.random() < 0.1 else self.t.rand(r, ctx))
        return tuple(out) if self.kind == "tuple" else out


def min_(a, b):
    return b if a is None else min(a, b)


class TupleOf(T):
    def __init__(self, *ts):
        self.ts = ts

    def sym(self, ex, name):
        return tuple(t.sym(ex, f"{name}_{k}") for k, t in enumerate(self.ts))

    def conc(self, m, v, ctx):
        return tuple(t.conc(m, x, ctx) for t, x in zip(self.ts, v))

    def rand(self, r, ctx):
        return tuple(t.rand(r, ctx) for t in self.ts)


class NTOf(T):
    def __init__(self, cls, *ts):
        self.cls, self.ts = cls, ts

    def sym(self, ex, name):
        return NT(self.cls, [t.sym(ex, f"{name}_{f}") for f, t in zip(self.cls._fields, self.ts)])

    def conc(self, m, v, ctx):
        return self.cls(*[t.conc(m, x, ctx) for t, x in zip(self.ts, v.vals)])

    def rand(self, r, ctx):
        return self.cls(*[t.rand(r, ctx) for t in self.ts])


class DictOf(T):
    def __init__(self, kt, vt, min=0, max=None, cls=dict):
        self.kt, self.vt, self.min, self.max, self.cls = kt, vt, min, max, cls

    def sym(self, ex, name):
        dflt = None
        if issubclass(self.cls, __import__("collections").Counter):
            dflt = "counter"
        if ex.bounded:
            n = ex.bounded_length(self.min, self.max)
            es = [DEnt(self.kt.sym(ex, f"{name}_k{k}"), self.vt.sym(ex, f"{name}_v{k}")) for k in range(n)]
            for a in range(n):
                for b in range(a):
                    c = ex.eq(es[a].k, es[b].k)
                    ex.assume(z3.Not(rv(c)))
            d = DMap(es, dflt)
        else:
            n = ex.skolem(name + "_n", z3.IntSort())
            ex.range_fact(n, self.min, self.max)
            i = ex.fresh_idx("a")
            ex.idx.append(i)
            k = self.kt.sym(ex, name + "_k")
            v = self.vt.sym(ex, name + "_v")
            ex.idx.pop()
            look = ex.make_look(n, i, k)
            d = DMap([DPull(n, i, k, v, look)], dflt)
        if ex.idx:
            return d
        return ex.alloc(d)

    def conc(self, m, v, ctx):
        d = ctx.deref(v)
        out = {}
        for p in d.parts:
            if isinstance(p, DEnt):
                out[self.kt.conc(m, p.k, ctx)] = self.vt.conc(m, p.v, ctx)
            else:
                for k in range(min(mint(m, p.n), 50)):
                    s = [(p.i, z3.IntVal(k))]
                    out[self.kt.conc(m, subst(p.k, s), ctx)] = self.vt.conc(m, subst(p.v, s), ctx)
        return self.cls(out)

    def rand(self, r, ctx):
        n = r.randint(self.min, max(self.min, min_(self.max, ctx.size)))
        return self.cls({self.kt.rand(r, ctx): self.vt.rand(r, ctx) for _ in range(n)})


class InstOf(T):
    """an object of a class of /repo with arbitrary field values (its constructor is not run)"""

    def __init__(self, cls, **fields):
        self.cls, self.fields = cls, fields

    def sym(self, ex, name):
        vals = {f: t.sym(ex, f"{name}_{f}") for f, t in self.fields.items()}
        if ex.idx:
            return NT(frozen_class(self.cls, sorted(vals)), [vals[f] for f in sorted(vals)])
        return ex.alloc(("inst", self.cls, vals))

    def conc(self, m, v, ctx):
        got = dict(zip(v.cls._fields, v.vals)) if isinstance(v, NT) else ctx.deref(v)[2]
        x = self.cls.__new__(self.cls)
        for f, t in self.fields.items():
            setattr(x, f, t.conc(m, got[f], ctx))
        return x

    def rand(self, r, ctx):
        x = self.cls.__new__(self.cls)
        for f, t in self.fields.items():
            setattr(x, f, t.rand(r, ctx))
        return x


def mint(m, v):
    if isinstance(v, int):
        return v
    return m.eval(rv(v), model_completion=True).as_long()


def melems(m, v, ctx):
    """elements of a symbolic sequence in model m"""
    if isinstance(v, tuple):
        return list(v)
    s = ctx.deref(v)
    out = []

    def go(s):
        for p in s.parts:
            if isinstance(p, Unit):
                out.append(p.v)
            elif isinstance(p, Pull):
                for k in range(min(mint(m, p.n), 60)):
                    out.append(subst(p.v, [(p.i, z3.IntVal(k))]))
            elif isinstance(p, Flat):
                for k in range(min(mint(m, p.n), 60)):
                    go(subst(p.s, [(p.i, z3.IntVal(k))]))
            elif isinstance(p, Cond):
                for c, t in p.cases:
                    if z3.is_true(m.eval(c, model_completion=True)):
                        go(t)
                        break

    go(s)
    return out


class Ctx:
    """context of concretisation / random generation"""

    def __init__(self, heap=None, size=4, ints=()):
        self.heap, self.opq, self.size, self.ints = heap or {}, {}, size, list(ints)

    def deref(self, v):
        return self.heap[v.id] if isinstance(v, Ref) else v


# ------------------------------------------------------------------ properties
class Contract:
    def __init__(self, fn, args, runs, size, prove, bmc, raises, fresh):
        self.fn, self.args, self.runs, self.size = fn, args, runs, size
        self.prove, self.bmc, self.raises, self.fresh = prove, bmc, raises, fresh
        self.name = fn.__name__

    def rand(self, r, ints):
        ctx = Ctx(size=r.randint(0, self.size) if r.random() < 0.9 else self.size * 2, ints=ints)
        return {k: t.rand(r, ctx) for k, t in self.args.items()}


class Prop:
    """one property: contracts (symbolic + concrete) and bounded harnesses on the real code"""

    registry = {}

    def __init__(self, id, functions=()):
        self.id, self.contracts, self.harnesses = id, [], []
        self.functions = list(functions)
        self.assumptions = []
        Prop.registry[id] = self

    def contract(self, runs=300, size=4, prove=True, bmc=2, raises=(), fresh=None, **args):
        def deco(fn):
            self.contracts.append(Contract(fn, args, runs, size, prove, bmc, raises, fresh))
            return fn

        return deco

    def harness(self, runs=100, **kw):
        """bounded check on the real code: fn(r, i) with a seeded random.Random and the case number"""

        def deco(fn):
            self.harnesses.append((fn, runs, kw))
            return fn

        return deco


def callee(fn, ty="Any", text=None):
    """modular step: symbolic callers of `fn` see only the contract "a function of its arguments", checked elsewhere"""
    from .ex import CONTRACTS

    import inspect

    name = getattr(fn, "__name__", str(fn))
    sig = inspect.signature(fn)

    def g(ex, a, k):
        ex.trusted.add(text or f"{name} is a function of its arguments")
        ex.inexact = True  # a refutation is relative to this contract
        b = sig.bind(*a, **k)
        b.apply_defaults()
        args = [ex.term(x) for x in b.arguments.values()]
        if isinstance(ty, z3.SortRef):
            return ex.fterm("fn_" + name, args, ty)
        return Opq(ex.fterm("fn_" + name, args), ty)

    CONTRACTS[fn] = g
    return fn
