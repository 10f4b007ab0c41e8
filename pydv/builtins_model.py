"""Models (trusted contracts) of the Python builtins and standard library used by the verified code."""
from .interp import *  # noqa
from .interp import _MISSING, StarSeq, counter_add, is_counter
from .ex import _hasq, _hasvar
from .ex import METHODS, ATTRS, MODELS, model
from .values import *  # noqa
from .values import z3
import functools
import itertools
import copy
import operator
import collections
import typing
import random

import numpy as np


def meth(ty, *names):
    def deco(f):
        for n in names:
            METHODS[(ty, n)] = f
        return f

    return deco


# ---------------------------------------------------------------- list
@meth("list", "append")
def _append(ex, s, a, k):
    o = ex.heap[s.id]
    ex.heap[s.id] = Seq(list(o.parts) + [Unit(a[0])], o.kind)


@meth("list", "extend")
def _extend(ex, s, a, k):
    o = ex.heap[s.id]
    q = ex.need_distinct(ex.toseq(a[0]))
    ex.heap[s.id] = Seq(list(o.parts) + list(q.parts), o.kind)


@meth("list", "copy")
def _lcopy(ex, s, a, k):
    return ex.newlist(ex.toseq(s))


@meth("list", "clear")
def _lclear(ex, s, a, k):
    ex.heap[s.id] = Seq([], ex.heap[s.id].kind)


@meth("list", "reverse")
def _lrev(ex, s, a, k):
    ex.heap[s.id] = ex.reverse(ex.heap[s.id])


@meth("list", "insert")
def _linsert(ex, s, a, k):
    o = ex.heap[s.id]
    pos = ex.num(a[0])
    if isinstance(pos, int) and pos == 0:
        ex.heap[s.id] = Seq([Unit(a[1])] + list(o.parts), o.kind)
        return
    if isinstance(pos, int) and all(isinstance(p, Unit) for p in o.parts):
        ps = list(o.parts)
        ps.insert(pos, Unit(a[1]))
        ex.heap[s.id] = Seq(ps, o.kind)
        return
    raise Unsupported("list.insert")


@meth("list", "pop")
def _lpop(ex, s, a, k):
    o = ex.heap[s.id]
    pos = ex.num(a[0]) if a else -1
    if not o.parts:
        raise PyRaise(IndexError, (), ex.curline)
    if not isinstance(pos, int):
        if not all(isinstance(p, Unit) for p in o.parts):
            raise Unsupported("list.pop")
        for t in range(len(o.parts)):
            if ex.decide(z3.Or(pos == t, pos == t - len(o.parts))):
                pos = t
                break
        else:
            raise PyRaise(IndexError, (), ex.curline)
    if pos == -1 and isinstance(o.parts[-1], Unit):
        ex.heap[s.id] = Seq(o.parts[:-1], o.kind)
        return o.parts[-1].v
    if pos >= 0 and all(isinstance(p, Unit) for p in o.parts[: pos + 1]) and len(o.parts) > pos:
        ex.heap[s.id] = Seq(o.parts[:pos] + o.parts[pos + 1:], o.kind)
        return o.parts[pos].v
    if all(isinstance(p, Unit) for p in o.parts):
        if not -len(o.parts) <= pos < len(o.parts):
            raise PyRaise(IndexError, (), ex.curline)
        ps = list(o.parts)
        v = ps.pop(pos).v
        ex.heap[s.id] = Seq(ps, o.kind)
        return v
    raise Unsupported("list.pop of symbolic length")


@meth("list", "index")
def _lindex(ex, s, a, k):
    o = ex.toseq(s)
    if all(isinstance(p, Unit) for p in o.parts):
        for t, p in enumerate(o.parts):
            if ex.decide(ex.eq(p.v, a[0])):
                return t
        raise PyRaise(ValueError, (), ex.curline)
    if len(o.parts) == 1 and isinstance(o.parts[0], Pull):
        p = o.parts[0]
        e = lambda t: rv(ex.eq(subst(p.v, [(p.i, t)]), a[0]))
        r = ex.skolem("index", z3.IntSort())
        if r.num_args() == 0:
            ex.idxconsts[r.get_id()] = r
        j = ex.fresh_idx("j")
        if ex.decide(ex.member(a[0], o)):
            ex.pc += [r >= 0, r < p.n, e(r), z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < r), z3.Not(e(j))))]
            if ex.idx:
                raise Unsupported("list.index inside a loop")
            return r
        raise PyRaise(ValueError, (), ex.curline)
    raise Unsupported("list.index")


METHODS[("tuple", "index")] = _lindex


@meth("list", "count")
def _lcount(ex, s, a, k):
    return ex.hom(ex.toseq(s), lambda x: zite(rv(ex.eq(x, a[0])), 1, 0))


METHODS[("tuple", "count")] = _lcount


@meth("list", "remove")
def _lremove(ex, s, a, k):
    o = ex.heap[s.id]
    if not all(isinstance(p, Unit) for p in o.parts):
        raise Unsupported("list.remove")
    for t, p in enumerate(o.parts):
        if ex.decide(ex.eq(p.v, a[0])):
            ex.heap[s.id] = Seq(o.parts[:t] + o.parts[t + 1:], o.kind)
            return
    raise PyRaise(ValueError, (), ex.curline)


def sort_concrete(ex, s, k):
    """sort by the real comparison when the keys are concrete; fork on the order for short symbolic ints"""
    if not all(isinstance(p, Unit) for p in s.parts):
        if len(s.parts) == 1:
            raise Unsupported("sorting a sequence of symbolic length")
        raise Unsupported("sort")
    xs = [p.v for p in s.parts]
    key = k.get("key")
    ks = [ex.call(key, [x], {}) if key is not None else x for x in xs]
    rev = k.get("reverse", False)
    raw = [ex.unraw(q) for q in ks]
    if not any(r is _MISSING for r in raw):
        idx = sorted(range(len(xs)), key=lambda t: raw[t], reverse=rev)
        return [xs[t] for t in idx]
    out = []  # stable insertion sort with forks
    for x, q in zip(xs, ks):
        pos = len(out)
        while pos > 0:
            other = out[pos - 1][1]
            lt = (ex.compare(ast.Lt(), q, other) if not rev else ex.compare(ast.Lt(), other, q))
            if ex.decide(lt):
                pos -= 1
            else:
                break
        out.insert(pos, (x, q))
    return [x for x, _ in out]


@meth("list", "sort")
def _lsort(ex, s, a, k):
    o = ex.heap[s.id]
    ex.heap[s.id] = Seq([Unit(x) for x in sort_concrete(ex, o, k)], o.kind)


@meth("list", "tolist")
def _tolist(ex, s, a, k):
    return s


# ---------------------------------------------------------------- set
@meth("set", "add")
def _sadd(ex, s, a, k):
    o = ex.heap[s.id]
    if all(isinstance(p, Unit) for p in o.parts):
        for p in o.parts:
            if ex.decide(ex.eq(p.v, a[0])):
                return
        ex.heap[s.id] = Seq(list(o.parts) + [Unit(a[0])], "set")
        return
    ex.heap[s.id] = Seq(list(o.parts) + [Unit(a[0])], "set")


def setseq(ex, v):
    """sequence view of an iterable as a set"""
    s = ex.toseq(v)
    if s.kind == "set":
        return s
    if all(isinstance(p, Unit) for p in s.parts):
        out = []
        for p in s.parts:
            for q in out:
                if ex.decide(ex.eq(p.v, q.v)):
                    break
            else:
                out.append(p)
        return Seq(out, "set")
    return Seq(s.parts, "set")


def filt(ex, s, f):
    ps = []
    for p in s.parts:
        if isinstance(p, Unit):
            c = f(p.v)
            if ex.decide(c):
                ps.append(p)
        elif isinstance(p, Pull):
            ps.append(Flat(p.n, p.i, Seq([Cond([(rv(f(p.v)), Seq([Unit(p.v)]))])])))
        elif isinstance(p, Flat):
            ps.append(Flat(p.n, p.i, filt_noforks(ex, p.s, f)))
        elif isinstance(p, Cond):
            ps.append(Cond([(c, filt_noforks(ex, t, f)) for c, t in p.cases]))
        else:
            raise Unsupported("filter over accumulator")
    return Seq(ps, s.kind)


def filt_noforks(ex, s, f):
    ps = []
    for p in s.parts:
        if isinstance(p, Unit):
            ps.append(Cond([(rv(f(p.v)), Seq([p]))]))
        elif isinstance(p, Pull):
            ps.append(Flat(p.n, p.i, Seq([Cond([(rv(f(p.v)), Seq([Unit(p.v)]))])])))
        elif isinstance(p, Flat):
            ps.append(Flat(p.n, p.i, filt_noforks(ex, p.s, f)))
        elif isinstance(p, Cond):
            ps.append(Cond([(c, filt_noforks(ex, t, f)) for c, t in p.cases]))
        else:
            raise Unsupported("filter over accumulator")
    return Seq(ps, s.kind)


@meth("set", "union")
def _sunion(ex, s, a, k):
    cur = setseq(ex, s)
    for x in a:
        o = setseq(ex, x)
        if all(isinstance(p, Unit) for p in list(cur.parts) + list(o.parts)):
            out = list(cur.parts)
            for p in o.parts:
                for q in out:
                    if ex.decide(ex.eq(p.v, q.v)):
                        break
                else:
                    out.append(p)
            cur = Seq(out, "set")
        else:
            cur = Seq(list(cur.parts) + list(o.parts), "set")
    return ex.alloc(cur)


@meth("set", "intersection")
def _sinter(ex, s, a, k):
    cur = setseq(ex, s)
    for x in a:
        o = setseq(ex, x)
        cur = filt(ex, cur, lambda v: ex.member(v, o))
    return ex.alloc(Seq(cur.parts, "set"))


@meth("set", "difference")
def _sdiff(ex, s, a, k):
    cur = setseq(ex, s)
    for x in a:
        o = setseq(ex, x)
        cur = filt(ex, cur, lambda v: neg(ex.member(v, o)))
    return ex.alloc(Seq(cur.parts, "set"))


def neg(b):
    return (not b) if isinstance(b, bool) else z3.Not(b)


@meth("set", "symmetric_difference")
def _ssym(ex, s, a, k):
    x = _sdiff(ex, s, a, k)
    y = _sdiff(ex, a[0], [s], k)
    return _sunion(ex, x, [y], {})


@meth("set", "update")
def _supd(ex, s, a, k):
    r = _sunion(ex, s, a, k)
    ex.heap[s.id] = ex.heap[r.id]


@meth("set", "issubset")
def _ssub(ex, s, a, k):
    o = ex.toseq(a[0])
    return ex.forall(ex.toseq(s), lambda v: ex.member(v, o))


@meth("set", "issuperset")
def _ssup(ex, s, a, k):
    o = ex.toseq(s)
    return ex.forall(ex.toseq(a[0]), lambda v: ex.member(v, o))


@meth("set", "isdisjoint")
def _sdisj(ex, s, a, k):
    o = ex.toseq(a[0])
    return ex.forall(ex.toseq(s), lambda v: neg(ex.member(v, o)))


@meth("set", "discard", "remove")
def _sdiscard(ex, s, a, k):
    o = ex.heap[s.id]
    if not all(isinstance(p, Unit) for p in o.parts):
        raise Unsupported("set.remove")
    for t, p in enumerate(o.parts):
        if ex.decide(ex.eq(p.v, a[0])):
            ex.heap[s.id] = Seq(o.parts[:t] + o.parts[t + 1:], "set")
            return


@meth("set", "copy")
def _scopy(ex, s, a, k):
    return ex.alloc(Seq(ex.toseq(s).parts, "set"))


@meth("set", "pop")
def _spop(ex, s, a, k):
    o = ex.heap[s.id]
    if len(o.parts) == 1 and isinstance(o.parts[0], Unit):
        ex.heap[s.id] = Seq([], "set")
        return o.parts[0].v
    raise Unsupported("set.pop")


# ---------------------------------------------------------------- dict
@meth("dict", "items")
def _items(ex, s, a, k):
    return ex.ditems(ex.deref(s))


@meth("dict", "keys")
def _keys(ex, s, a, k):
    d = ex.deref(s)
    return KSeq(ex.dkeys(d).parts, ex.todict(d))


@meth("dict", "values")
def _values(ex, s, a, k):
    return ex.ditems(ex.deref(s), "values")


@meth("dict", "get")
def _get(ex, s, a, k):
    d = ex.todict(ex.deref(s))
    default = a[1] if len(a) > 1 else k.get("default")
    has, v = ex.dget(d, a[0])
    if has is True:
        return v
    if has is False:
        return default
    if d.parts and isinstance(d.parts[0], Acc) and isinstance(default, (int, float)) and default == 0 and not isinstance(default, bool) and len(d.parts) == 1:
        return v  # accumulator reads denote value-or-zero
    if ex.bounded:
        return v if ex.decide(has) else default
    return ex.merge([(has, v), (z3.Not(has), default)])


@meth("dict", "setdefault")
def _setdef(ex, s, a, k):
    d = ex.heap[s.id]
    has, v = ex.dget(d, a[0])
    if has is True or (has is not False and ex.decide(has)):
        return v
    dv = a[1] if len(a) > 1 else None
    ex.heap[s.id] = ex.dset(d, a[0], dv)
    return dv


@meth("dict", "update")
def _dupdate(ex, s, a, k):
    if a:
        src = ex.deref(a[0])
        if isinstance(src, (DMap, dict)):
            src = ex.todict(src)
            if all(isinstance(p, DEnt) for p in src.parts):
                for p in src.parts:
                    ex.heap[s.id] = ex.dset(ex.heap[s.id], p.k, p.v)
            elif not ex.heap[s.id].parts:
                ex.heap[s.id] = DMap(src.parts, ex.heap[s.id].default)
            else:
                raise Unsupported("dict.update with a symbolic dict")
        else:
            def body(x):
                x = ex.toseq(x)
                ex.heap[s.id] = ex.dset(ex.heap[s.id], x.parts[0].v, x.parts[1].v)

            ex.iterate(ex.toseq(a[0]), body)
    for n, v in k.items():
        ex.heap[s.id] = ex.dset(ex.heap[s.id], n, v)


@meth("dict", "pop")
def _dpop(ex, s, a, k):
    d = ex.heap[s.id]
    if not all(isinstance(p, DEnt) for p in d.parts):
        if len(d.parts) == 1 and isinstance(d.parts[0], DPull):
            p = d.parts[0]
            has, v = ex.dget(d, a[0])
            if ex.decide(has):
                ix = p.look.idx(ex.keyterms(a[0]))
                ex.heap[s.id] = DMap([DPull(p.n, p.i, p.k, p.v, p.look, z3.And(p.g, p.i != ix))], d.default)
                return v
            if len(a) > 1:
                return a[1]
            raise PyRaise(KeyError, (), ex.curline)
        raise Unsupported("dict.pop")
    for t, p in enumerate(d.parts):
        if ex.decide(ex.eq(p.k, a[0])):
            ex.heap[s.id] = DMap(d.parts[:t] + d.parts[t + 1:], d.default)
            return p.v
    if len(a) > 1:
        return a[1]
    raise PyRaise(KeyError, (), ex.curline)


@meth("dict", "copy")
def _dcopy(ex, s, a, k):
    return ex.alloc(ex.todict(ex.deref(s)))


@meth("dict", "clear")
def _dclear(ex, s, a, k):
    ex.heap[s.id] = DMap([], ex.heap[s.id].default)


@meth("dict", "most_common")
def _mc(ex, s, a, k):
    raise Unsupported("most_common")


# ---------------------------------------------------------------- builtins
@bi(len)
def _len(ex, a, k):
    return ex.length(a[0])


@bi(range)
def _range(ex, a, k):
    a = [ex.num(x) for x in a]
    if all(isinstance(x, int) for x in a):
        r = range(*a)
        if len(r) <= 64:
            return r
    lo, hi, st = (0, a[0], 1) if len(a) == 1 else (a[0], a[1], 1) if len(a) == 2 else a
    if not isinstance(st, int):
        if not ex.decide(st > 0):
            raise Unsupported("range with a non-positive symbolic step")
        n = zsub(hi, lo)
        if ex.decide(rv(n) <= 0):
            return Seq([])
        # ceil(n/st)
        cnt = ex.intdiv(zadd(n, zsub(st, 1)), st)[0]
        j = ex.fresh_idx("r")
        return Seq(ex.mkpull(cnt, j, zadd(lo, j * st)))
    n = zsub(hi, lo) if st > 0 else zsub(lo, hi)
    if abs(st) != 1:
        n = rv(zadd(n, abs(st) - 1)) / abs(st)
    if ex.bounded:
        for t in range(0, 13):
            if ex.decide(rv(n) <= t):
                n = t
                break
        else:
            raise Unsupported("range beyond the unrolling bound")
        return Seq([Unit(z3.simplify(rv(zadd(lo, t * st))) if is_z3(lo) else lo + t * st) for t in range(n)])
    if not ex.valid(rv(n) >= 0):
        if ex.decide(rv(n) <= 0):
            return Seq([])
    j = ex.fresh_idx("r")
    v = zadd(lo, j) if st == 1 else zadd(lo, j * st)
    return Seq(ex.mkpull(n, j, v))


@bi(enumerate)
def _enum(ex, a, k):
    s = ex.need_distinct(ex.toseq(a[0]))
    start = a[1] if len(a) > 1 else k.get("start", 0)
    fp = ex.flatten_pulls(s)
    if all(isinstance(p, Unit) for p in s.parts):
        return Seq([Unit((zadd(start, t), p.v)) for t, p in enumerate(s.parts)])
    if fp:
        j = ex.fresh_idx("n")
        return Seq([Pull(rv(fp[0]), j, (zadd(start, j), fp[1](j)))])
    return enum_seq(ex, s, start)[0]


def enum_seq(ex, s, start):
    """number the elements of a sequence: an element's number is the number of elements before it"""
    out = []
    for p in s.parts:
        if isinstance(p, Unit):
            out.append(Unit((start, p.v)))
            start = zadd(start, 1)
        elif isinstance(p, Pull):
            out.append(Pull(p.n, p.i, (zadd(start, p.i), p.v)))
            start = zadd(start, p.n)
        elif isinstance(p, Flat):
            j = ex.fresh_idx("j")
            before = ex.bsum(p.i, j, ex.hom(subst(p.s, [(p.i, j)]), lambda x: 1))
            out.append(Flat(p.n, p.i, enum_seq(ex, p.s, zadd(start, before))[0]))
            start = zadd(start, ex.hom_part(p, lambda x: 1))
        elif isinstance(p, Cond):
            out.append(Cond([(c, enum_seq(ex, t, start)[0]) for c, t in p.cases]))
            start = zadd(start, ex.hom_part(p, lambda x: 1))
        else:
            raise Unsupported("enumerate over an accumulator")
    return Seq(out), start


@bi(zip)
def _zip(ex, a, k):
    if len(a) == 1 and isinstance(a[0], StarSeq):
        # zip(*rows): rows of equal known width
        s = a[0].s
        v = None
        if len(s.parts) == 1 and isinstance(s.parts[0], Pull):
            p = s.parts[0]
            row = p.v
            w = row.vals if isinstance(row, NT) else row if isinstance(row, tuple) else None
            if w is not None:
                if ex.decide(p.n <= 0):
                    return Seq([])
                return Seq([Unit(Seq([Pull(p.n, p.i, x)], "tuple")) for x in w])
        raise Unsupported("zip(*rows)")
    seqs = [ex.need_distinct(ex.toseq(x)) for x in a]
    if not seqs:
        return Seq([])
    if len(seqs) == 1:
        return Seq([Unit((p.v,)) if isinstance(p, Unit) else Pull(p.n, p.i, (p.v,)) for p in seqs[0].parts])
    if k.get("strict"):
        for s in seqs[1:]:
            if not ex.decide(rv(ex.length(seqs[0])) == rv(ex.length(s))):
                raise PyRaise(ValueError, (), ex.curline)
    z = seqs[0]
    first = True
    for s in seqs[1:]:
        z = ex.zip2(z, s)
        if not first:
            z = ex.mapseq(z, lambda t: t[0] + (t[1],))
        first = False
    return z


@bi(map)
def _map(ex, a, k):
    f = a[0]
    s = ex.toseq(a[1]) if len(a) == 2 else _zip(ex, a[1:], {})
    r = ex.alloc(Seq([]))
    one = len(a) == 2

    def body(x):
        METHODS[("list", "append")](ex, r, [ex.call(f, [x] if one else list(x), {})], {})

    ex.iterate(s, body)
    return r


@bi(filter)
def _filter(ex, a, k):
    r = ex.alloc(Seq([]))

    def body(x):
        if ex.decide(ex.truth(x if a[0] is None else ex.call(a[0], [x], {}))):
            METHODS[("list", "append")](ex, r, [x], {})

    ex.iterate(ex.toseq(a[1]), body)
    return r


@bi(sum)
def _sum(ex, a, k):
    start = a[1] if len(a) > 1 else k.get("start", 0)
    v = ex.res(a[0])
    s = ex.toseq(v)
    if s.kind != "accvalues":
        s = ex.need_distinct(s)
    st = ex.res(start)
    if is_counter(ex, st):
        r = counter_add(ex, ex.alloc(DMap([], "counter")), st)
        ex.iterate(s, lambda x: counter_add(ex, r, x))
        return r
    if isinstance(st, Ref) or isinstance(st, tuple):
        r = ex.alloc(Seq(ex.toseq(st).parts))

        def body(x):
            METHODS[("list", "extend")](ex, r, [x], {})

        ex.iterate(s, body)
        return r
    return zadd(ex.num(start), ex.hom(s, lambda x: ex.num(x)))


@bi(all)
def _all(ex, a, k):
    r = ex.forall(ex.toseq(a[0]), lambda x: ex.truth(x))
    r = z3.simplify(r) if not _hasq(r) else r
    return True if z3.is_true(r) else False if z3.is_false(r) else r


@bi(any)
def _any(ex, a, k):
    r = ex.forall(ex.toseq(a[0]), lambda x: neg(ex.truth(x)))
    r = z3.Not(r)
    r = z3.simplify(r) if not _hasq(r) else r
    return True if z3.is_true(r) else False if z3.is_false(r) else r


def _minmax(ex, a, k, ismax):
    if len(a) == 1:
        s = ex.toseq(a[0])
        if not all(isinstance(p, Unit) for p in s.parts):
            if "key" in k or "default" in k:
                raise Unsupported("min/max with key over symbolic length")
            if len(s.parts) == 1 and isinstance(s.parts[0], Pull):
                p = s.parts[0]
                if ex.decide(p.n <= 0):
                    raise PyRaise(ValueError, (), ex.curline)
                if ex.idx:
                    raise Unsupported("min/max inside a loop")
                e = lambda t: rv(ex.num(subst(p.v, [(p.i, t)])))
                w = z3.Int(f"argm!{ex.uid()}")
                ex.idxconsts[w.get_id()] = w
                j = ex.fresh_idx("j")
                ex.pc += [w >= 0, w < p.n, z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < p.n), e(j) <= e(w) if ismax else e(j) >= e(w)))]
                return e(w)
            raise Unsupported("min/max of symbolic length")
        xs = [p.v for p in s.parts]
        if not xs:
            if "default" in k:
                return k["default"]
            raise PyRaise(ValueError, (), ex.curline)
    else:
        xs = list(a)
    key = k.get("key")
    best = xs[0]
    bk = ex.call(key, [best], {}) if key is not None else best
    for x in xs[1:]:
        xk = ex.call(key, [x], {}) if key is not None else x
        lt = ex.compare(ast.Gt() if ismax else ast.Lt(), xk, bk)
        if isinstance(lt, bool):
            if lt:
                best, bk = x, xk
        elif key is None and not isinstance(best, (Opq, str)):
            best = bk = zite(lt, rv(ex.num(x)), rv(ex.num(best)))
        else:
            if ex.decide(lt):
                best, bk = x, xk
    return best


@bi(min, np.min, np.minimum)
def _min(ex, a, k):
    return _minmax(ex, a, k, False)


@bi(max, np.max, np.maximum)
def _max(ex, a, k):
    return _minmax(ex, a, k, True)


@bi(random.uniform, random.random)
def _uniform(ex, a, k):
    lo, hi = (ex.num(a[0]), ex.num(a[1])) if a else (0, 1)
    v = ex.skolem("uniform", z3.RealSort())
    ex.assume(z3.And(v >= lo, v <= hi) if a else z3.And(v >= 0, v < 1))
    return v


@bi(abs, np.abs)
def _abs(ex, a, k):
    v = ex.num(a[0])
    return abs(v) if not is_z3(v) else z3.If(v >= 0, v, -v)


@bi(sorted)
def _sorted(ex, a, k):
    s = ex.need_distinct(ex.toseq(a[0]))
    return ex.alloc(Seq([Unit(x) for x in sort_concrete(ex, s, k)]))


@bi(reversed)
def _reversed(ex, a, k):
    return ex.reverse(ex.toseq(a[0]))


@bi(list)
def _list(ex, a, k):
    if not a:
        return ex.alloc(Seq([]))
    return ex.newlist(ex.need_distinct(ex.toseq(a[0])))


@bi(tuple)
def _tuple(ex, a, k):
    if not a:
        return ()
    s = ex.need_distinct(ex.toseq(a[0]))
    if all(isinstance(p, Unit) for p in s.parts):
        return tuple(p.v for p in s.parts)
    return Seq([ex.freeze(p) for p in s.parts], "tuple")


@bi(set, frozenset)
def _set(ex, a, k):
    if not a:
        return ex.alloc(Seq([], "set"))
    return ex.alloc(setseq(ex, a[0]))


@bi(dict, collections.OrderedDict)
def _dict(ex, a, k):
    d = ex.alloc(DMap([]))
    _dupdate(ex, d, a, k)
    return d


@bi(collections.defaultdict)
def _defaultdict(ex, a, k):
    d = ex.alloc(DMap([], a[0] if a else None))
    _dupdate(ex, d, a[1:], k)
    return d


@bi(collections.Counter, typing.Counter)
def _counter(ex, a, k):
    d = ex.alloc(DMap([], "counter"))
    if a:
        src = ex.deref(a[0])
        if isinstance(src, (DMap, dict)):
            _dupdate(ex, d, a, k)
        else:
            def body(x):
                cur = ex.getitem(d, x)
                ex.setitem(d, x, zadd(cur, 1))

            ex.iterate(ex.toseq(a[0]), body)
    return d


@bi(int)
def _int(ex, a, k):
    if not a:
        return 0
    v = ex.res(a[0])
    if isinstance(v, str) or (len(a) > 1 or k):
        return ex.native(int, a, k)
    v = ex.num(v)
    if not is_z3(v):
        try:
            return int(v)
        except (OverflowError, ValueError) as e:
            raise PyRaise(type(e), (), ex.curline)
    if z3.is_int(v):
        return v
    return z3.If(v >= 0, z3.ToInt(v), -z3.ToInt(-v))


@bi(float, np.float64)
def _float(ex, a, k):
    v = ex.res(a[0]) if a else 0.0
    if isinstance(v, str):
        return ex.native(float, a, k)
    v = ex.num(v)
    return float(v) if not is_z3(v) else toreal(v)


@bi(bool)
def _bool(ex, a, k):
    return ex.truth(a[0]) if a else False


@bi(str, repr)
def _str(ex, a, k):
    if not a:
        return ""
    v = ex.res(a[0])
    if isinstance(v, (str, int, float)):
        return str(v)
    if isinstance(v, Opq) and v.ty == "Str":
        return v
    try:
        return Opq(ex.fterm("str", [ex.term(v)]), "Str")
    except Unsupported:
        return Opq(ex.skolem("str", U), "Str")


@bi(round, np.round)
def _round(ex, a, k):
    v = ex.num(a[0])
    nd = a[1] if len(a) > 1 else k.get("ndigits")
    if not is_z3(v):
        return round(v, nd) if nd is not None else round(v)
    if nd not in (None, 0):
        raise Unsupported("round to digits")
    if z3.is_int(v):
        return v
    f = z3.ToInt(v)
    d = v - z3.ToReal(f)
    r = z3.If(d < z3.RealVal("1/2"), f, z3.If(d > z3.RealVal("1/2"), f + 1, z3.If(f % 2 == 0, f, f + 1)))
    return r


@bi(divmod)
def _divmod(ex, a, k):
    x, y = ex.num(a[0]), ex.num(a[1])
    if not is_z3(x) and not is_z3(y):
        return divmod(x, y)
    return ex.intdiv(x, y)


@bi(math.ceil)
def _ceil(ex, a, k):
    v = ex.num(a[0])
    if not is_z3(v):
        return math.ceil(v)
    if z3.is_int(v):
        return v
    return -z3.ToInt(-v)


@bi(math.floor)
def _floor(ex, a, k):
    v = ex.num(a[0])
    if not is_z3(v):
        return math.floor(v)
    return v if z3.is_int(v) else z3.ToInt(v)


@bi(np.ceil)
def _npceil(ex, a, k):
    return toreal(_ceil(ex, a, k))


@bi(np.floor)
def _npfloor(ex, a, k):
    return toreal(_floor(ex, a, k))


@bi(math.isclose)
def _isclose(ex, a, k):
    x, y = ex.num(a[0]), ex.num(a[1])
    rt, at = k.get("rel_tol", 1e-9), k.get("abs_tol", 0.0)
    if not is_z3(x) and not is_z3(y):
        return math.isclose(x, y, rel_tol=rt, abs_tol=at)
    x, y = toreal(x), toreal(y)
    ab = lambda t: z3.If(t >= 0, t, -t)
    m = z3.If(ab(x) >= ab(y), ab(x), ab(y))
    tol = z3.If(rv(float(rt)) * m >= rv(float(at)), rv(float(rt)) * m, rv(float(at)))
    return ab(x - y) <= tol


@bi(print)
def _print(ex, a, k):
    return None


@bi(typing.cast)
def _cast(ex, a, k):
    return a[1]


def _deepfreeze(ex, v):
    return ex.freeze(v)


def _copyval(ex, v, deep):
    v = ex.res(v)
    if isinstance(v, Ref):
        o = ex.heap[v.id]
        if isinstance(o, Seq):
            if deep:
                return ex.alloc(Seq([_copypart(ex, p) for p in o.parts], o.kind))
            return ex.alloc(o)
        if isinstance(o, DMap):
            if deep:
                return ex.alloc(DMap([DEnt(p.k, _copyval(ex, p.v, True)) if isinstance(p, DEnt) else p for p in o.parts], o.default))
            return ex.alloc(o)
        m = ex.find_method(o[1], "__deepcopy__" if deep else "__copy__")
        if m:
            return ex.call_method_raw(v, m, o[1], [{}] if deep else [], {})
        f = {n: _copyval(ex, x, True) if deep else x for n, x in o[2].items()}
        return ex.alloc(("inst", o[1], f))
    if deep and isinstance(v, tuple):
        return tuple(_copyval(ex, x, True) for x in v)
    if deep and isinstance(v, NT):
        return NT(v.cls, [_copyval(ex, x, True) for x in v.vals])
    if isinstance(v, (list, dict, set)):
        s = ex.todict(v) if isinstance(v, dict) else ex.toseq(v)
        return ex.alloc(s)
    if isinstance(v, Seq) and v.kind != "tuple":
        return ex.alloc(v)
    if isinstance(v, DMap):
        return ex.alloc(v)
    return v


def _copypart(ex, p):
    if isinstance(p, Unit):
        return Unit(_copyval(ex, p.v, True))
    return p


@bi(copy.deepcopy)
def _deepcopy(ex, a, k):
    return _copyval(ex, a[0], True)


@bi(copy.copy)
def _copy1(ex, a, k):
    return _copyval(ex, a[0], False)


@bi(itertools.repeat)
def _repeat(ex, a, k):
    n = ex.num(a[1] if len(a) > 1 else k["times"])
    if ex.bounded and is_z3(n):
        for t in range(0, 13):
            if ex.decide(n <= t):
                n = t
                break
        else:
            raise Unsupported("repeat beyond the unrolling bound")
    if isinstance(n, int):
        return Seq([Unit(a[0])] * max(n, 0))
    if not ex.valid(n >= 0):
        if ex.decide(n <= 0):
            return Seq([])
    j = ex.fresh_idx("x")
    return Seq(ex.mkpull(n, j, ex.freeze(a[0])))


@bi(itertools.chain)
def _chain(ex, a, k):
    ps = []
    for x in a:
        ps += ex.toseq(x).parts
    return Seq(ps)


@bi(itertools.chain.from_iterable)
def _chainfi(ex, a, k):
    r = ex.alloc(Seq([]))
    ex.iterate(ex.toseq(a[0]), lambda x: METHODS[("list", "extend")](ex, r, [x], {}))
    return r


@bi(itertools.product)
def _product(ex, a, k):
    rep = k.get("repeat", 1)
    seqs = [ex.toseq(x) for x in a] * rep
    if not all(all(isinstance(p, Unit) for p in s.parts) for s in seqs):
        if len(seqs) == 2:
            r = ex.alloc(Seq([]))
            ex.iterate(seqs[0], lambda x: ex.iterate(seqs[1], lambda y: METHODS[("list", "append")](ex, r, [(x, y)], {})))
            return r
        raise Unsupported("product of symbolic sequences")
    return Seq([Unit(t) for t in itertools.product(*[[p.v for p in s.parts] for s in seqs])])


def _chosen(f):
    def g(ex, a, k):
        q = ex.toseq(a[0])
        n = a[1] if len(a) > 1 else k.get("r", len(q.parts))
        if not isinstance(n, int) or not all(isinstance(p, Unit) for p in q.parts):
            raise Unsupported(f"{f.__name__} of symbolic sequences")
        return Seq([Unit(t) for t in f([p.v for p in q.parts], n)])

    return g


for _f in (itertools.combinations, itertools.permutations, itertools.combinations_with_replacement):
    bi(_f)(_chosen(_f))


@bi(itertools.accumulate)
def _accumulate(ex, a, k):
    s = ex.toseq(a[0])
    if len(a) > 1 or "func" in k:
        raise Unsupported("accumulate with function")
    r = ex.alloc(Seq([]))
    tot = [k.get("initial", None)]
    if tot[0] is not None:
        METHODS[("list", "append")](ex, r, [tot[0]], {})
    if all(isinstance(p, Unit) for p in s.parts):
        t = tot[0] or 0
        for p in s.parts:
            t = zadd(t, ex.num(p.v))
            METHODS[("list", "append")](ex, r, [t], {})
        return r
    fp = ex.flatten_pulls(s)
    if fp is None:
        raise Unsupported("accumulate")
    j, j2 = ex.fresh_idx("c"), ex.fresh_idx("c")
    v = zadd(tot[0] or 0, ex.bsum(j + 1, j2, ex.num(fp[1](j2))))
    METHODS[("list", "extend")](ex, r, [Seq([Pull(rv(fp[0]), j, v)])], {})
    return r


@bi(functools.reduce)
def _reduce(ex, a, k):
    s = ex.toseq(a[1])
    if not all(isinstance(p, Unit) for p in s.parts):
        raise Unsupported("reduce over symbolic length")
    xs = [p.v for p in s.parts]
    if len(a) > 2:
        xs = [a[2]] + xs
    if not xs:
        raise PyRaise(TypeError, (), ex.curline)
    r = xs[0]
    for x in xs[1:]:
        r = ex.call(a[0], [r, x], {})
    return r


@bi(functools.partial)
def _partial(ex, a, k):
    class _P:
        pass

    f, rest, kw = a[0], list(a[1:]), dict(k)
    return Bi(lambda ex2, aa, kk: ex2.call(f, rest + list(aa), {**kw, **kk}), "partial")


@bi(isinstance)
def _isinstance(ex, a, k):
    v = ex.res(a[0])
    cs = a[1] if isinstance(a[1], tuple) else (a[1],)
    if hasattr(a[1], "__args__") and not isinstance(a[1], type):
        cs = a[1].__args__

    def one(c):
        if is_z3(v):
            if z3.is_bool(v):
                return issubclass(bool, c)
            if z3.is_int(v):
                return issubclass(int, c)
            return issubclass(float, c)
        if isinstance(v, NT):
            return issubclass(v.cls, c)
        if isinstance(v, Ref):
            o = ex.heap[v.id]
            if isinstance(o, Seq):
                return issubclass(set if o.kind == "set" else list, c)
            if isinstance(o, DMap):
                return issubclass(dict, c)
            return issubclass(o[1], c)
        if isinstance(v, Seq):
            return issubclass({"tuple": tuple, "set": set}.get(v.kind, list), c)
        if isinstance(v, DMap):
            return issubclass(dict, c)
        if isinstance(v, Opq):
            rc = CLASSES.get(v.ty)
            if rc is None:
                raise Unsupported(f"isinstance of opaque {v.ty}")
            return issubclass(rc, c)
        if isinstance(v, (Func, BM, Bi)):
            return issubclass(types.FunctionType, c)
        return isinstance(v, c)

    return any(one(c) for c in cs)


@bi(hasattr)
def _hasattr(ex, a, k):
    try:
        ex.getattr(a[0], a[1])
        return True
    except PyRaise as e:
        if issubclass(e.cls, AttributeError):
            return False
        raise


@bi(getattr)
def _getattr(ex, a, k):
    try:
        return ex.getattr(a[0], a[1])
    except PyRaise as e:
        if issubclass(e.cls, AttributeError) and len(a) > 2:
            return a[2]
        raise


@bi(setattr)
def _setattr(ex, a, k):
    ex.setattr(a[0], a[1], a[2])


@bi(callable)
def _callable(ex, a, k):
    return isinstance(ex.res(a[0]), (Func, BM, Bi, types.FunctionType, type))


@bi(type)
def _type(ex, a, k):
    v = ex.res(a[0])
    if isinstance(v, Ref):
        o = ex.heap[v.id]
        return (set if o.kind == "set" else list) if isinstance(o, Seq) else dict if isinstance(o, DMap) else o[1]
    if isinstance(v, NT):
        return v.cls
    if isinstance(v, Opq):
        if v.ty in CLASSES:
            return CLASSES[v.ty]
        raise Unsupported("type of opaque")
    if is_z3(v):
        return bool if z3.is_bool(v) else int if z3.is_int(v) else float
    return type(v)


@bi(id)
def _id(ex, a, k):
    v = ex.res(a[0])
    if isinstance(v, Ref):
        return v.id
    raise Unsupported("id")


@bi(next)
def _next(ex, a, k):
    it = ex.res(a[0])
    if ex.isiter(it):
        o = ex.heap[it.id]
        s, pos = o[2]["seq"], o[2]["pos"]
        if pos is None:
            raise Unsupported("an iterator that was consumed before")
    else:
        # a fresh iterator, read once
        if not isinstance(it, (Seq, Ref)):
            raise Unsupported("next")
        s, pos = ex.toseq(it), 0
    if isinstance(pos, int) and pos < len(s.parts) and all(isinstance(p, Unit) for p in s.parts[: pos + 1]):
        v = s.parts[pos].v
    else:
        n = ex.length(s)
        if ex.decide(rv(n) <= rv(pos)):
            if len(a) > 1:
                return a[1]
            raise PyRaise(StopIteration, (), ex.curline)
        v = ex.index(s, pos)
    if ex.isiter(it):
        ex.iterpos(it, zadd(pos, 1))
    return v


@bi(iter)
def _iter(ex, a, k):
    return ex.mkiter(a[0])


@bi(types.MethodType)
def _mt(ex, a, k):
    return BM(a[1], a[0], "method")


@bi(operator.mul)
def _omul(ex, a, k):
    return ex.binop(ast.Mult(), a[0], a[1])


@bi(operator.add)
def _oadd(ex, a, k):
    return ex.binop(ast.Add(), a[0], a[1])


@bi(operator.itemgetter)
def _itemgetter(ex, a, k):
    return Bi(lambda e2, aa, kk: e2.getitem(aa[0], a[0]) if len(a) == 1 else tuple(e2.getitem(aa[0], q) for q in a), "itemgetter")


@bi(np.sum)
def _npsum(ex, a, k):
    if k:
        raise Unsupported("np.sum with axis")
    return _sum(ex, a, {})


@bi(np.mean)
def _npmean(ex, a, k):
    if k or len(a) > 1:
        raise Unsupported("np.mean with axis")
    n = ex.length(a[0])
    t = _sum(ex, a, {})
    if not is_z3(n) and n == 0:
        raise Unsupported("mean of empty")
    return toreal(t) / toreal(n) if is_z3(t) or is_z3(n) else t / n


@bi(np.array, np.asarray)
def _nparray(ex, a, k):
    v = ex.res(a[0])
    if isinstance(v, (Ref, Seq, tuple, range, list)):
        return ex.newlist(ex.toseq(v))
    raise Unsupported("np.array")


@bi(np.concatenate)
def _npconcat(ex, a, k):
    if k or len(a) > 1:
        raise Unsupported("np.concatenate with axis")
    s = ex.toseq(a[0])
    if not ex.decide(rv(ex.length(s)) > 0):
        raise PyRaise(ValueError, ("need at least one array to concatenate",), ex.curline)
    r = ex.alloc(Seq([]))
    ex.iterate(s, lambda x: METHODS[("list", "extend")](ex, r, [x], {}))
    return r


@bi(math.prod, np.prod)
def _prod(ex, a, k):
    s = ex.toseq(a[0])
    if not all(isinstance(p, Unit) for p in s.parts):
        raise Unsupported("product over symbolic length")
    r = 1
    for p in s.parts:
        r = ex.binop(ast.Mult(), r, p.v)
    return r


import warnings  # noqa: E402


@bi(warnings.warn)
def _warn(ex, a, k):
    return None
