"""Symbolic values, sequences and substitution for the pydv executor."""
import sys

_VT = "/opt/veriftools/pyvenv/lib/python3.12/site-packages"
if _VT not in sys.path:
    sys.path.append(_VT)
import z3  # noqa: E402
from fractions import Fraction  # noqa: E402

U = z3.DeclareSort("U")


class Unsupported(Exception):
    """The construct is outside the verified fragment: the function is undecided."""


class Infeasible(Exception):
    """The current path is contradictory."""


class PyRaise(Exception):
    """An exception raised by the interpreted program."""

    def __init__(self, cls, args=(), where=""):
        self.cls, self.eargs, self.where = cls, args, where

    def __str__(self):
        return f"{getattr(self.cls, '__name__', self.cls)} at {self.where}"


class Sentinel:
    def __init__(self, n):
        self.n = n

    def __repr__(self):
        return self.n


UNBOUND = Sentinel("UNBOUND")
POISON = Sentinel("POISON")


class Opq:
    """An opaque program value: a term of the uninterpreted sort U, tagged with a type name."""

    __slots__ = ("t", "ty")

    def __init__(self, t, ty="Any"):
        self.t, self.ty = t, ty

    def __repr__(self):
        return f"<{self.ty} {self.t}>"


class NT:
    """namedtuple instance."""

    __slots__ = ("cls", "vals")

    def __init__(self, cls, vals):
        self.cls, self.vals = cls, tuple(vals)

    def __repr__(self):
        return f"{self.cls.__name__}{self.vals}"


class FrozenInst:
    """marker base of the record classes standing for objects whose identity is not tracked"""


_FI = {}


def frozen_class(cls, fields):
    k = (cls, tuple(fields))
    if k not in _FI:
        _FI[k] = type("Frozen" + cls.__name__, (FrozenInst,), {"_fields": tuple(fields), "_real": cls})
    return _FI[k]


class Ref:
    """Reference to a heap object."""

    __slots__ = ("id",)

    def __init__(self, id):
        self.id = id

    def __repr__(self):
        return f"&{self.id}"

    def __eq__(self, o):
        return isinstance(o, Ref) and o.id == self.id

    def __hash__(self):
        return hash(("ref", self.id))


class G:
    """Guarded union: [(cond, value)], exhaustive and exclusive under the path condition."""

    __slots__ = ("cases",)

    def __init__(self, cases):
        self.cases = cases

    def __repr__(self):
        return "G" + repr(self.cases)


# ---------------------------------------------------------------- sequences
class Unit:
    __slots__ = ("v",)

    def __init__(self, v):
        self.v = v

    def __repr__(self):
        return f"[{self.v}]"


class Pull:
    """n elements; element number i is v (a value mentioning the Int constant i)."""

    __slots__ = ("n", "i", "v")

    def __init__(self, n, i, v):
        self.n, self.i, self.v = n, i, v

    def __repr__(self):
        return f"Pull({self.n},{self.i}->{self.v})"


class Flat:
    """concatenation over i<n of the sequence s(i)."""

    __slots__ = ("n", "i", "s")

    def __init__(self, n, i, s):
        self.n, self.i, self.s = n, i, s

    def __repr__(self):
        return f"Flat({self.n},{self.i}->{self.s})"


class Cond:
    """first case whose condition holds (cases exclusive); empty if none."""

    __slots__ = ("cases",)

    def __init__(self, cases):
        self.cases = cases

    def __repr__(self):
        return f"Cond({self.cases})"


class Acc:
    """placeholder: the content of accumulator k before the current iteration."""

    __slots__ = ("k",)

    def __init__(self, k):
        self.k = k

    def __repr__(self):
        return f"Acc{self.k}"


class Seq:
    """immutable sequence = concatenation of parts. kind: 'list'|'tuple'|'set' (set: membership view)"""

    __slots__ = ("parts", "kind")

    def __init__(self, parts, kind="list"):
        self.parts, self.kind = tuple(parts), kind

    def __repr__(self):
        return f"Seq{self.kind[0]}{list(self.parts)}"


class KSeq(Seq):
    """view of the keys of the dict d: iterates in order, compares as a set"""

    __slots__ = ("d",)

    def __init__(self, parts, d):
        Seq.__init__(self, parts)
        self.d = d


# dict parts
class DEnt:
    __slots__ = ("k", "v")

    def __init__(self, k, v):
        self.k, self.v = k, v

    def __repr__(self):
        return f"{self.k}:{self.v}"


class DPull:
    """entries (k(i), v(i)) for i<n with pairwise distinct keys (an input dict, or a build proved injective).
    has/idx: lookup functions from key term to Bool/Int, created by the executor."""

    __slots__ = ("n", "i", "k", "v", "look", "g")

    def __init__(self, n, i, k, v, look, g=None):
        self.n, self.i, self.k, self.v, self.look = n, i, k, v, look
        self.g = z3.BoolVal(True) if g is None else g

    def entries(self, v):
        """sequence over the present entries of value v (mentions self.i)"""
        if z3.is_true(z3.simplify(self.g)):
            return Pull(self.n, self.i, v)
        return Flat(self.n, self.i, Seq([Cond([(self.g, Seq([Unit(v)]))])]))

    def __repr__(self):
        return f"DPull({self.n},{self.i}->{self.k}:{self.v})"


class DOps:
    """a sequence of update operations (each element a python tuple (op, key, value), op in set/add)"""

    __slots__ = ("seq",)

    def __init__(self, seq):
        self.seq = seq

    def __repr__(self):
        return f"DOps({self.seq})"


class DMap:
    """immutable dict value"""

    __slots__ = ("parts", "default")

    def __init__(self, parts, default=None):
        self.parts, self.default = tuple(parts), default

    def __repr__(self):
        return f"DMap{list(self.parts)}"


def is_z3(v):
    return isinstance(v, z3.ExprRef)


def rv(x):
    """python number -> exact z3 value"""
    if isinstance(x, bool):
        return z3.BoolVal(x)
    if isinstance(x, int):
        return z3.IntVal(x)
    if isinstance(x, float):
        f = Fraction(x)
        return z3.RealVal(f)
    return x


def subst(v, pairs):
    """substitute z3 terms in a value"""
    if isinstance(v, z3.ExprRef):
        return z3.substitute(v, *pairs)
    if isinstance(v, Opq):
        return Opq(z3.substitute(v.t, *pairs), v.ty)
    if isinstance(v, NT):
        return NT(v.cls, [subst(x, pairs) for x in v.vals])
    if isinstance(v, tuple):
        return tuple(subst(x, pairs) for x in v)
    if isinstance(v, Seq):
        return Seq([subst(p, pairs) for p in v.parts], v.kind)
    if isinstance(v, Unit):
        return Unit(subst(v.v, pairs))
    if isinstance(v, Pull):
        return Pull(subst(v.n, pairs), v.i, subst(v.v, pairs))
    if isinstance(v, Flat):
        return Flat(subst(v.n, pairs), v.i, subst(v.s, pairs))
    if isinstance(v, Cond):
        return Cond([(subst(c, pairs), subst(s, pairs)) for c, s in v.cases])
    if isinstance(v, G):
        return G([(subst(c, pairs), subst(s, pairs)) for c, s in v.cases])
    if isinstance(v, DMap):
        return DMap([subst(p, pairs) for p in v.parts], v.default)
    if isinstance(v, DEnt):
        return DEnt(subst(v.k, pairs), subst(v.v, pairs))
    if isinstance(v, DPull):
        return DPull(subst(v.n, pairs), v.i, subst(v.k, pairs), subst(v.v, pairs),
                     v.look.subst(pairs), subst(v.g, pairs))
    if isinstance(v, DOps):
        return DOps(subst(v.seq, pairs))
    return v


def mentions(v, term):
    """does the value mention the z3 constant `term` (or the Acc placeholder object)?"""
    if isinstance(v, z3.ExprRef):
        if not isinstance(term, z3.ExprRef):
            return False
        return _zmentions(v, term)
    if isinstance(v, Opq):
        return mentions(v.t, term)
    if isinstance(v, NT):
        return any(mentions(x, term) for x in v.vals)
    if isinstance(v, (tuple, list)):
        return any(mentions(x, term) for x in v)
    if isinstance(v, Seq):
        return any(mentions(x, term) for x in v.parts)
    if isinstance(v, Unit):
        return mentions(v.v, term)
    if isinstance(v, Pull):
        return mentions(v.n, term) or mentions(v.v, term)
    if isinstance(v, Flat):
        return mentions(v.n, term) or mentions(v.s, term)
    if isinstance(v, (Cond, G)):
        return any(mentions(c, term) or mentions(s, term) for c, s in v.cases)
    if isinstance(v, DMap):
        return any(mentions(p, term) for p in v.parts)
    if isinstance(v, DEnt):
        return mentions(v.k, term) or mentions(v.v, term)
    if isinstance(v, DPull):
        return mentions(v.n, term) or mentions(v.k, term) or mentions(v.v, term) or mentions(v.g, term)
    if isinstance(v, DOps):
        return mentions(v.seq, term)
    if isinstance(v, Acc):
        return v is term or (isinstance(term, Acc) and v.k == term.k)
    return False


def _zmentions(e, t):
    seen = set()
    st = [e]
    tid = t.get_id()
    while st:
        x = st.pop()
        if x.get_id() == tid:
            return True
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        st.extend(x.children())
    return False


def zconsts(e):
    """0-ary uninterpreted constants in a z3 term"""
    out, seen, st = {}, set(), [e]
    while st:
        x = st.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_const(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
            out[x.get_id()] = x
        st.extend(x.children())
    return list(out.values())


def zapps(e, pred):
    """applications satisfying pred(decl), outside of quantifier-bound positions"""
    out, seen, st = {}, set(), [e]
    while st:
        x = st.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_app(x) and pred(x.decl()):
            out[x.get_id()] = x
        st.extend(x.children())
    return list(out.values())


class IterObj:
    """class tag of iterator objects on the executor's heap"""


def standin(cls):
    """a class of a contract that stands in for one of the libraries', and only has what contracts need of it"""
    return isinstance(cls, type) and any(c.__module__.startswith("contracts") for c in cls.__mro__) and all(
        c.__module__.startswith("contracts") or c.__module__ in ("builtins", "typing") for c in cls.__mro__
    )
