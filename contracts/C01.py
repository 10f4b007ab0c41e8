"""TaskGraph: running a graph is the composition of its tasks."""
from contracts.common import *  # noqa
from qermit import TaskGraph, MitTask
from qermit.taskgraph.mittask import duplicate_wire_task_gen

LEVEL = "exploration"
P = Prop("C01", [
    "qermit/taskgraph/task_graph.py:TaskGraph.run", "qermit/taskgraph/task_graph.py:TaskGraph.prepend",
    "qermit/taskgraph/task_graph.py:TaskGraph.append", "qermit/taskgraph/task_graph.py:TaskGraph.parallel",
    "qermit/taskgraph/task_graph.py:TaskGraph.add_n_wires", "qermit/taskgraph/task_graph.py:TaskGraph.decompose_TaskGraph_nodes",
    "qermit/taskgraph/task_graph.py:TaskGraph.from_TaskGraph",
])
WireT = Opaque("Wire", lambda k: ("wire", k))


# ---- proved for every argument
@P.contract(wires=ListOf(WireT), n=Int(0))
def duplicate(wires, n):
    out = duplicate_wire_task_gen(len(wires), n)(wires)
    ensure("the wires in order, once per copy", list(out) == [w for _ in range(n) for w in wires])


@P.contract(label=Opaque("Label", lambda k: f"t{k}"), n_in=Int(0, 5), n_out=Int(0, 5), wires=ListOf(WireT))
def task_call(label, n_in, n_out, wires):
    def f(obj, *args):
        return ("f", obj.label, args)

    t = MitTask(_label=label, _n_in_wires=n_in, _n_out_wires=n_out, _method=f)
    ensure("ports", t.n_in_wires == n_in and t.n_out_wires == n_out and t.label == label)
    r = t(wires)
    ensure("method applied to the wires in order", r[0] == "f" and r[1] == label and list(r[2]) == wires)


# ---- bounded: random construction histories, tasks are free functions (their result is the term of the call)
class Model:
    """reference: a graph is a function from a tuple of wires to a tuple of wires"""

    def __init__(self, n_in, n_out, f):
        self.n_in, self.n_out, self.f = n_in, n_out, f


TERMS = {}


def mk(name, p, args):
    """the free term name_p(args), interned"""
    key = (name, p, tuple(args))
    if key not in TERMS:
        TERMS[key] = f"{name}.{p}#{len(TERMS)}"
    return TERMS[key]


def free_task(r, n_in, n_out, name):
    calls = []

    def method(obj, *args):
        calls.append(name)
        return tuple(mk(name, p, args) for p in range(n_out))

    t = MitTask(_label=name, _n_in_wires=n_in, _n_out_wires=n_out, _method=method)
    return t, Model(n_in, n_out, lambda w: tuple(mk(name, p, w) for p in range(n_out))), calls


def compose(first, second):
    return Model(first.n_in, second.n_out, lambda w: second.f(first.f(w)))


def beside(a, b):
    return Model(a.n_in + b.n_in, a.n_out + b.n_out, lambda w: tuple(a.f(w[: a.n_in])) + tuple(b.f(w[a.n_in:])))


def ident(n):
    return Model(n, n, lambda w: tuple(w))


def build(r, depth, names, width=3, allow_wires=True):
    """-> (TaskGraph, Model, text)"""
    def name():
        names.append(1)
        return f"t{len(names)}"

    def piece(n_in, n_out):
        if depth > 0 and r.random() < 0.3:
            g, m, txt = build(r, depth - 1, names)
            k = 0
            while (m.n_in != n_in or m.n_out != n_out) and k < 3:
                if m.n_in != n_in:
                    t, tm, _ = free_task(r, n_in, m.n_in, name())
                    g.prepend(t)
                    m = compose(tm, m)
                if m.n_out != n_out:
                    t, tm, _ = free_task(r, m.n_out, n_out, name())
                    g.append(t)
                    m = compose(m, tm)
                k += 1
            return g, m, f"[{txt}]"
        nm = name()
        t, m, _ = free_task(r, n_in, n_out, nm)
        return t, m, nm

    g = TaskGraph(_label=name())
    w = r.randint(1, width)
    if w > 1:
        if r.random() < 0.5:
            g.add_n_wires(w - 1)
        else:
            for _ in range(w - 1):
                g.add_wire()
    m = ident(w)
    txt = [f"wires{w}"]
    for _ in range(r.randint(1, 4)):
        op = r.choice(["append", "prepend", "parallel"])
        if allow_wires and r.random() < 0.2:
            g.add_wire()
            m = beside(m, ident(1))
            txt.append("wire")
        if op == "append":
            t, tm, tt = piece(m.n_out, r.randint(1, width))
            g.append(t)
            m = compose(m, tm)
        elif op == "prepend":
            t, tm, tt = piece(r.randint(1, width), m.n_in)
            g.prepend(t)
            m = compose(tm, m)
        else:
            t, tm, tt = piece(r.randint(1, width), r.randint(1, width))
            g.parallel(t)
            m = beside(m, tm)
        txt.append(f"{op} {tt}")
    return g, m, ", ".join(txt)


def args_for(m, tag="x"):
    return [f"{tag}{k}" for k in range(m.n_in)]


def snapshot(g):
    return (list(g._task_graph.nodes), sorted(((str(a), str(b), k) for a, b, k in g._task_graph.edges(keys=True))))


@P.harness(runs=250)
def composition(r, i):
    g, m, txt = build(r, 2, [])
    log(txt)
    ensure("wire counts", g.n_in_wires == m.n_in and g.n_out_wires == m.n_out)
    a = args_for(m)
    out = g.run(list(a))
    ensure("outputs are the composition in port order", tuple(out) == tuple(m.f(a)), (txt, out, m.f(a)))
    b = args_for(m, "y")
    ensure("a second run sees only its own inputs", tuple(g(list(b))) == tuple(m.f(b)))
    ensure("result does not depend on earlier runs", tuple(g.run(list(a))) == tuple(m.f(a)))


@P.harness(runs=250)
def copies(r, i):
    g, m, txt = build(r, 1, [])
    log(txt)
    a = args_for(m)
    h = TaskGraph().from_TaskGraph(g)
    ensure("copy computes the same", tuple(h.run(list(a))) == tuple(m.f(a)))
    t, tm, _ = free_task(r, m.n_out, 2, "extra")
    h.append(t)
    ensure("changing the copy leaves the original", tuple(g.run(list(a))) == tuple(m.f(a)) and g.n_out_wires == m.n_out)
    ensure("the changed copy composes", tuple(h.run(list(a))) == tuple(compose(m, tm).f(a)))
    # the graph handed to append/prepend/parallel still works on its own
    outer = TaskGraph()
    outer.add_n_wires(m.n_in - 1)
    outer.append(g)
    u, um, _ = free_task(r, 1, m.n_in, "pre")
    outer.prepend(u)
    b = ["z"]
    ensure("nested graph", tuple(outer.run(list(b))) == tuple(compose(um, m).f(b)))
    try:
        outer.decompose_TaskGraph_nodes()
    except ValueError:
        pass
    ensure("a graph used inside another graph is left as it was", tuple(g.run(list(a))) == tuple(m.f(a)))


def bare(g):
    """an edge from input to output, at any nesting depth"""
    tg = g._task_graph
    return tg.number_of_edges(g._i, g._o) > 0 or any(bare(n) for n in tg.nodes if hasattr(n, "_task_graph"))


@P.harness(runs=250)
def decompose(r, i):
    names = []
    inner, im, t0 = build(r, 1, names, allow_wires=False)
    if bare(inner):
        require(False)
    g = TaskGraph(_label="outer")
    g.add_n_wires(im.n_in - 1)
    g.append(inner)
    m = im
    txt = [t0]
    for _ in range(r.randint(0, 3)):
        op = r.choice(["append", "prepend", "parallel", "again", "againpar"] if m.n_out < 8 and m.n_in < 8 else ["append", "prepend"])
        if op == "append":
            t, tm, _ = free_task(r, m.n_out, r.randint(1, 3), f"o{len(txt)}")
            g.append(t)
            m = compose(m, tm)
        elif op == "prepend":
            t, tm, _ = free_task(r, r.randint(1, 3), m.n_in, f"o{len(txt)}")
            g.prepend(t)
            m = compose(tm, m)
        elif op == "parallel":
            t, tm, _ = free_task(r, r.randint(1, 3), r.randint(1, 3), f"o{len(txt)}")
            g.parallel(t)
            m = beside(m, tm)
        elif op == "again" and m.n_out == im.n_in:
            g.append(inner)
            m = compose(m, im)
        else:
            g.parallel(inner)
            m = beside(m, im)
        txt.append(op)
    log(*txt)
    a = args_for(m)
    before = tuple(g.run(list(a)))
    ensure("nested run", before == tuple(m.f(a)), txt)
    g.decompose_TaskGraph_nodes()
    ensure("no nested graph is left", not any(hasattr(n, "_task_graph") for n in g._task_graph.nodes))
    ensure("ports kept", g.n_in_wires == m.n_in and g.n_out_wires == m.n_out)
    after = g.run(list(a))
    ensure("decomposition does not change the result", tuple(after) == tuple(m.f(a)), (txt, after, m.f(a)))


@P.harness(runs=150)
def mismatches(r, i):
    """a task with the wrong number of ports is refused and the graph is unchanged"""
    g, m, txt = build(r, 1, [])
    log(txt)
    for op, n in (("append", m.n_out), ("prepend", m.n_in)):
        k = n + r.choice([-1, 1, 2])
        if k < 0:
            continue
        t, _, _ = free_task(r, k if op == "append" else 1, 1 if op == "append" else k, "bad")
        before = snapshot(g)
        try:
            getattr(g, op)(t)
            ok = False
        except AssertionError:
            ok = True
        ensure(f"{op} refuses a task with other wires", ok)
        ensure("graph unchanged by a refusal", snapshot(g) == before)
    inner, im, _ = build(r, 0, [], allow_wires=False)
    bad = TaskGraph(_label="wire")
    bad.add_n_wires(r.randint(0, 2))
    h = TaskGraph()
    h.add_n_wires(bad.n_in_wires - 1)
    h.append(bad)
    a = [f"q{k}" for k in range(bad.n_in_wires)]
    ensure("nested wires pass through", tuple(h.run(list(a))) == tuple(a))
    try:
        h.decompose_TaskGraph_nodes()
        ok = False
    except ValueError:
        ok = True
    ensure("decomposing a bare wire is refused", ok)


@P.harness(runs=150)
def caching(r, i):
    g, m, txt = build(r, 0, [], allow_wires=False)
    log(txt)
    a = args_for(m)
    out = g.run(list(a), cache=True)
    ensure("same result with cache", tuple(out) == tuple(m.f(a)))
    c = g.get_cache()
    ensure("every task is cached under its label", sorted(c) == sorted(t.label for t in g.tasks))
    ensure("cached outputs", all(v[1][p].startswith(f"{lab}.{p}#") for lab, v in c.items() for p in range(len(v[1]))))
    t1, tm1, _ = free_task(r, m.n_out, 1, "dup")
    t2, tm2, _ = free_task(r, 1, 1, "dup")
    g.append(t1)
    g.append(t2)
    try:
        g.run(list(a), cache=True)
        ok = False
    except ValueError:
        ok = True
    ensure("equal labels cannot be cached", ok)


@P.harness(runs=100)
def characterisation(r, i):
    """what a task writes to its characterisation reaches the tasks after it and the graph"""
    n = r.randint(1, 4)
    g = TaskGraph()
    seen = {}
    for k in range(n):
        def f(obj, x, k=k):
            seen[k] = dict(obj.characterisation)
            obj.characterisation[f"c{k}"] = k
            return (x,)

        g.append(MitTask(_label=f"t{k}", _n_in_wires=1, _n_out_wires=1, _method=f))
    given = {"given": 7, "c0": "old"} if r.random() < 0.5 else {}
    log(n, given)
    g.run(["x"], characterisation=given)
    ensure("earlier writes are visible", all(seen[k].get(f"c{j}") == j for k in range(n) for j in range(k)))
    ensure("given values are visible", all(seen[k].get("given") == given.get("given") for k in range(n)))
    ensure("collected on the graph", all(g.get_characterisation().get(f"c{k}") == k for k in range(n)))
    own = dict(g.get_characterisation())
    copy = TaskGraph().from_TaskGraph(g)
    ensure("copies know it too", dict(copy.get_characterisation()) == own)
    late = {}

    def last(obj, x):
        late.update(obj.characterisation)
        obj.characterisation["late"] = 1
        return (x,)

    copy.append(MitTask(_label="last", _n_in_wires=1, _n_out_wires=1, _method=last))
    copy.run(["x"])
    ensure("and hand it to their tasks", all(late.get(k) == v for k, v in own.items()))
    ensure("but share nothing", dict(g.get_characterisation()) == own)
