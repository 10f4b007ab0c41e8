"""Postselection: which shots are kept, with which bits, and how many."""
from contracts.common import *  # noqa
from contracts.fakes import *  # noqa
from contracts.sim import *  # noqa
from collections import Counter
from typing import List, NamedTuple, Tuple
from pytket.backends.backendresult import BackendResult
from qermit import CircuitShots, MitRes, MitTask
from qermit.postselection import PostselectMgr, gen_postselect_mitres
from qermit.postselection.postselect_mitres import gen_postselect_task, gen_postselect_mgr_gen_task

PM_, PT_ = "qermit/postselection/postselect_manager.py:PostselectMgr.", "qermit/postselection/postselect_mitres.py:"
P = Prop("C05", [PM_ + f for f in ("__init__", "postselect_result", "merge_result", "_get_postselected_shot", "_is_postselect_shot", "_dict_to_result")]
         + [PT_ + "gen_postselect_task", PT_ + "gen_postselect_mgr_gen_task"])


class Given:
    """a result holding given counts of the bits asked for"""

    def __init__(self, counts):
        self.counts = counts

    def get_counts(self, cbits=None):
        return self.counts


B = [Bit(k) for k in range(4)]
Z = Int(0, 1)


def counts_in(res, bits):
    """counts of a result; nothing survived: a result without counts"""
    try:
        return res.get_counts(cbits=bits)
    except Exception:
        return {}


@P.contract(counts=DictOf(TupleOf(Z, Z, Z), Int(1)), x=Z, y=Z)
def keep_one_post_bit(counts, x, y):
    m = PostselectMgr([B[2], B[0]], [B[1]])
    out = counts_in(m.postselect_result(Given(counts)), [B[2], B[0]])
    ensure("counts of the shots whose postselection bits are all 0", out.get((x, y), 0) == counts.get((x, y, 0), 0))


@P.contract(counts=DictOf(TupleOf(Z, Z, Z), Int(1)), x=Z, y=Z)
def merge_one_post_bit(counts, x, y):
    m = PostselectMgr([B[2], B[0]], [B[1]])
    out = counts_in(m.merge_result(Given(counts)), [B[2], B[0]])
    ensure("merging keeps every shot", out.get((x, y), 0) == counts.get((x, y, 0), 0) + counts.get((x, y, 1), 0))


@P.contract(counts=DictOf(TupleOf(Z, Z, Z), Int(1)), x=Z)
def keep_two_post_bits(counts, x):
    m = PostselectMgr([B[3]], [B[1], B[0]])
    out = counts_in(m.postselect_result(Given(counts)), [B[3]])
    ensure("counts of the shots whose postselection bits are all 0", out.get((x,), 0) == counts.get((x, 0, 0), 0))


@P.contract(counts=DictOf(TupleOf(Z, Z, Z), Int(1)), x=Z)
def merge_two_post_bits(counts, x):
    m = PostselectMgr([B[3]], [B[1], B[0]])
    out = counts_in(m.merge_result(Given(counts)), [B[3]])
    ensure("merging keeps every shot",
           out.get((x,), 0) == counts.get((x, 0, 0), 0) + counts.get((x, 0, 1), 0) + counts.get((x, 1, 0), 0) + counts.get((x, 1, 1), 0))


class StubMgr(NamedTuple):
    k: int

    def postselect_result(self, result):
        return (self.k, result)


ResultT = Opaque("Result", lambda k: ("result", k))


@P.contract(results=ListOf(ResultT), ks=ListOf(Int(0)))
def each_result_its_manager(results, ks):
    require(len(results) == len(ks))
    out = gen_postselect_task().run(results, [StubMgr(k) for k in ks])[0]
    ensure("a result per result", len(out) == len(results))
    ensure("each by its own manager", all(o == (k, x) for o, k, x in zip(out, ks, results)))


@P.contract(wire=ListOf(Shots(0)), k=Int(0))
def same_manager_for_all(wire, k):
    mgr = StubMgr(k)
    circs, mgrs = gen_postselect_mgr_gen_task(mgr).run(wire)
    ensure("circuits and shots as given", list(circs) == wire)
    ensure("a manager per circuit", len(mgrs) == len(wire) and all(m == mgr for m in mgrs))


@P.contract(a=OneOf(0, 1, 2), b=OneOf(0, 1, 2), c=OneOf(0, 1, 2))
def disjoint(a, b, c):
    try:
        PostselectMgr([B[a], B[3]], [B[b], B[c]])
        ok = True
    except Exception:
        ok = False
    ensure("refused exactly when a bit is both", ok == (a != b and a != c))


# ---- bounded: any number of bits, real results, and the whole pipeline
P.functions += [PT_ + "gen_postselect_mitres"]


def split_bits(r):
    bits = [Bit(k) for k in range(r.randint(1, 4))] + [Bit("z", k) for k in range(r.randint(0, 2))]
    r.shuffle(bits)
    k = r.randint(0, len(bits) - 1)
    comp, post = bits[k:], bits[:k]
    if r.random() < 0.2:
        r.shuffle(comp)
    return comp, post


def kept(rows, bits, comp, post, select=True):
    out = Counter()
    pos = {b: k for k, b in enumerate(bits)}
    for row in rows:
        if not select or not any(row[pos[b]] for b in post):
            out[tuple(row[pos[b]] for b in comp)] += 1
    return dict(out)


@P.harness(runs=300)
def any_bits(r, i):
    comp, post = split_bits(r)
    extra = [Bit("unused", k) for k in range(r.randint(0, 1))]
    bits = comp + post + extra
    r.shuffle(bits)
    rows = rand_table(r, r.randint(1, 12), len(bits))
    if r.random() < 0.4:
        rows = [[b * r.randint(0, 1) for b in row] for row in rows]
    if r.random() < 0.5:
        res = shots_result(rows, bits)
    else:
        res = counts_result(Counter(map(tuple, rows)), bits)
    log(comp, post, bits, rows)
    m = PostselectMgr(list(comp), list(post))
    for select, f in ((True, m.postselect_result), (False, m.merge_result)):
        want = kept(rows, bits, comp, post, select)
        out = f(res)
        if want:
            ensure("kept shots with the bits kept", counts_of(out, comp) == want, (select, counts_of(out, comp), want))
            ensure("order of the bits", list(out.c_bits) == list(comp))
        else:
            ensure("nothing survives", not counts_in(out, comp))
    ensure("result given is not changed", counts_of(res, bits) == {k: v for k, v in Counter(map(tuple, rows)).items()})


@P.harness(runs=80)
def pipeline(r, i):
    """postselecting MitRes: circuit k at position k, its own shots run, the given MitRes is not touched"""
    comp, post = split_bits(r)
    bits = comp + post
    tabs = {}

    def answer(c, s, k):
        return shots_result(tabs[c.name], sorted(c.bits))

    be = FakeBackend(answer)
    given = []

    def watch(obj, x: List[CircuitShots]) -> Tuple[List[CircuitShots]]:
        given.append(list(x))
        return (x,)

    mitres = MitRes(be)
    if r.random() < 0.5:
        mitres.prepend(MitTask(_label="watch", _n_in_wires=1, _n_out_wires=1, _method=watch))
    size = len(mitres.tasks)
    m = PostselectMgr(list(comp), list(post))
    kw = {} if r.random() < 0.4 else {"mitres": mitres}
    pm = gen_postselect_mitres(backend=be, postselect_mgr=m, **kw)
    ensure("the MitRes given is not changed", len(mitres.tasks) == size)
    jobs, want = [], []
    for k in range(r.randint(1, 4)):
        c = Circuit(name=f"c{k}")
        for b in bits:
            c.add_bit(b)
        s = r.randint(1, 12)
        rows = rand_table(r, s, len(bits))
        rows[0] = [0] * len(bits)
        tabs[f"c{k}"] = rows
        jobs.append(CircuitShots(c, s))
        want.append(kept(rows, sorted(bits), comp, post))
    log(comp, post, tabs)
    for _ in range(2):
        be.jobs.clear()
        out = pm.run(list(jobs))
        ensure("a result per circuit", len(out) == len(jobs))
        ensure("circuits and shots run", [(c.name, s) for c, s in be.jobs] == [(j.Circuit.name, j.Shots) for j in jobs])
        for k, o in enumerate(out):
            ensure("postselected result of its own circuit", counts_of(o, comp) == want[k], (k, counts_of(o, comp), want[k]))
