"""Spectral filtering: the landscape of an experiment is evaluated, filtered and read at the experiment's own point."""
import itertools
import numpy as np
from sympy import Symbol
from scipy import fft, interpolate
from contracts.common import *  # noqa
from contracts.fakes import *  # noqa
from contracts.sim import *  # noqa
from pydv.interp import MODELS
from pydv.values import Opq, Unsupported, z3
from pytket import OpType
from pytket.utils import QubitPauliOperator
from qermit import MitEx, MitRes, MitTask, ObservableTracker, SymbolsDict
from qermit.spectral_filtering import spectral_filtering as sf
from qermit.spectral_filtering import gen_spectral_filtering_MitEx
from qermit.spectral_filtering.signal_filter import SignalFilter, SmallCoefficientSignalFilter

S = "qermit/spectral_filtering/spectral_filtering.py:"
P = Prop("C18", [S + f for f in (
    "gen_result_extraction_task", "gen_mitigation_task", "gen_fft_task", "gen_ndarray_to_dict_task", "gen_inv_fft_task", "gen_flatten_task",
    "gen_reshape_task", "gen_obs_exp_grid_gen_task", "gen_symbol_val_gen_task", "gen_wire_copy_task", "gen_param_grid_gen_task", "gen_spectral_filtering_MitEx")]
    + ["qermit/spectral_filtering/signal_filter.py:SmallCoefficientSignalFilter.filter"])
QpsT = Opaque("QubitPauliString", lambda k: QubitPauliString({Qubit(k // 3): [Pauli.X, Pauli.Y, Pauli.Z][k % 3]}), cls=QubitPauliString)
GridT = Opaque("Grid", lambda k: np.array([[k, 1.0 - k], [k * k, 2.0]]))
AxesT = Opaque("Axes", lambda k: [np.array([0.0, 1.0 + k]), np.array([0.0, 2.0 + k])])


def same_grid(a, b):
    return a is b or np.shape(a) == np.shape(b) and np.allclose(a, b, atol=1e-9)


# ---- numpy and scipy on grids: unknown functions, the same for equal arguments
def unknown(name, ty):
    def f(ex, a, k):
        ex.trusted.add(f"{name} is a function of its arguments")
        return Opq(ex.fterm(name, [ex.term(x) for x in a]), ty)

    return f


MODELS[fft.fftn] = unknown("fft.fftn", "Grid")
MODELS[fft.ifftn] = unknown("fft.ifftn", "Grid")
MODELS[same_grid] = lambda ex, a, k: ex.eq(a[0], a[1])


class Filter(SignalFilter):
    def filter(self, grid):
        return filtered(grid)


def filtered(grid):
    return grid * 2 + 1


MODELS[filtered] = unknown("filtered", "Grid")


@P.contract(grids=ListOf(DictOf(QpsT, GridT)))
def transformed(grids):
    out = sf.gen_fft_task()([grids])[0]
    ensure("one dictionary per experiment", len(out) == len(grids))
    for o, g in zip(out, grids):
        ensure("the strings of the experiment", o.keys() == g.keys())
        ensure("each string's own grid transformed", all(same_grid(o[s], fft.fftn(g[s])) for s in g))


@P.contract(grids=ListOf(DictOf(QpsT, GridT)))
def transformed_back(grids):
    out = sf.gen_inv_fft_task()([grids])[0]
    ensure("one dictionary per experiment", len(out) == len(grids))
    for o, g in zip(out, grids):
        ensure("the strings of the experiment", o.keys() == g.keys())
        ensure("each string's own grid transformed back", all(same_grid(o[s], fft.ifftn(g[s])) for s in g))


@P.contract(grids=ListOf(DictOf(QpsT, GridT)))
def filtering(grids):
    out = sf.gen_mitigation_task(Filter())([grids])[0]
    ensure("one dictionary per experiment", len(out) == len(grids))
    for o, g in zip(out, grids):
        ensure("the strings of the experiment", o.keys() == g.keys())
        ensure("each string's own grid filtered", all(same_grid(o[s], filtered(g[s])) for s in g))


# ---- flattening grids and back
class Shape:
    """an unknown shape"""


class Grid:
    """a grid as its cells in order and its shape (None: one axis)"""

    def __init__(self, cells, shape):
        self.cells, self.shape = cells, shape

    @property
    def size(self):
        return len(self.cells)

    def flatten(self):
        return Grid(list(self.cells), None)

    def ravel(self):
        return Grid(list(self.cells), None)

    def reshape(self, shape):
        return Grid(list(self.cells), shape)

    @property
    def flat(self):
        return Grid(list(self.cells), None)

    def tolist(self):
        return list(self.cells) if self.shape is None else self.rows  # rows of an unknown shape are beyond this stand-in

    def __iter__(self):
        return iter(self.cells) if self.shape is None else self.rows

    def __len__(self):
        return len(self.cells) if self.shape is None else self.rows


CellT = Opaque("Experiment", lambda k: ("experiment", k))
ShapeT = Opaque("Shape", lambda k: Shape(), cls=Shape)
FakeGridT = InstOf(Grid, cells=ListOf(CellT), shape=ShapeT)


def _array(ex, a, k):
    if k.keys() - {"dtype"}:
        raise Unsupported("np.array with options")
    return ex.construct(Grid, [ex.newlist(ex.toseq(a[0])), None], {})


def _reshape(ex, a, k):
    return ex.construct(Grid, [ex.newlist(ex.toseq(a[0])), a[1]], {})


MODELS[np.array] = MODELS[np.asarray] = _array
MODELS[np.reshape] = _reshape


@P.contract(grids=ListOf(FakeGridT), runs=0)
def flattened(grids):
    cells, lengths, shapes = sf.gen_flatten_task()([grids])
    ensure("every cell of every grid, in order", cells == [c for g in grids for c in g.cells])
    ensure("lengths", lengths == [len(g.cells) for g in grids])
    ensure("shapes", shapes == [g.shape for g in grids])


@P.contract(sizes=ListOf(Int(0)), shapes=ListOf(ShapeT), values=ListOf(CellT), runs=0)
def reshaped(sizes, shapes, values):
    require(len(sizes) == len(shapes) and len(values) == sum(sizes))
    out = sf.gen_reshape_task()([values, sizes, shapes])[0]
    ensure("one grid per experiment", len(out) == len(sizes))
    ensure("its own shape", all(o.shape == s for o, s in zip(out, shapes)))
    ensure("as many values as it has points", all(len(o.cells) == n for o, n in zip(out, sizes)))
    ensure("its own values, in order", all(list(out[e].cells) == values[sum(sizes[:e]):sum(sizes[: e + 1])] for e in range(len(sizes))))


# ---- axes, copies
class Symbols:
    def __init__(self, symbols_list):
        self.symbols_list = symbols_list


SymbolT = Opaque("Symbol", lambda k: Symbol(f"s{k}"), cls=Symbol)
AxisT = Opaque("Axis", lambda k: ("axis", k))
SymExpT = NTOf(ObservableExperiment, NTOf(AnsatzCircuit, CircuitT, Int(1), InstOf(Symbols, symbols_list=ListOf(SymbolT))), Opaque("Tracker", lambda k: ("tracker", k)))


def axis(n):
    return np.linspace(0, 2, n, endpoint=False)


def _linspace(ex, a, k):
    ex.trusted.add("np.linspace is a function of its arguments")
    return Opq(ex.fterm("linspace", [ex.term(x) for x in a] + [ex.term(k.get("endpoint", True))]), "Axis")


MODELS[np.linspace] = _linspace


@P.contract(wire=ListOf(SymExpT), n=Int(1, 6))
def axes(wire, n):
    out, points = sf.gen_symbol_val_gen_task(n)([wire])
    ensure("the experiments themselves", out == wire)
    ensure("axes for every experiment", len(points) == len(wire))
    for ps, e in zip(points, wire):
        ensure("an axis per symbol", len(ps) == len(e.AnsatzCircuit.SymbolsDict.symbols_list))
        ensure("n equal steps from 0 up to 2, full turns left out", all(same_grid(p, axis(n)) for p in ps))


WireT = ListOf(CellT)


@P.contract(a=WireT, b=WireT, c=WireT)
def copied(a, b, c):
    out = sf.gen_wire_copy_task(3, 2)([a, b, c])
    ensure("as many wires as announced", len(out) == 6 and sf.gen_wire_copy_task(3, 2).n_out_wires == 6)
    ensure("the wires in order, twice", list(out) == [a, b, c, a, b, c])
    a0 = list(a)
    out[0].append(1)
    ensure("wires of their own", out[3] == a0 and a == a0)
    ensure("any number of wires", list(sf.gen_wire_copy_task(1, 3)([b])) == [b, b, b])


# ---- reading the landscape
class Tracker:
    def __init__(self, op):
        self.op = op

    @property
    def qubit_pauli_operator(self):
        return self.op


class Values:
    def __init__(self, _symbolic_map):
        self._symbolic_map = _symbolic_map


def at(points, grid, where):
    return interpolate.interpn(points, grid, where)[0]


def _interpn(ex, a, k):
    ex.trusted.add("interpolate.interpn is a function of its arguments")
    at_ = ex.res(a[2])
    return (ex.fterm("interpn", [ex.term(a[0]), ex.term(a[1]), ex.term(at_)], z3.RealSort()),)


MODELS[interpolate.interpn] = _interpn
PointExpT = NTOf(ObservableExperiment, NTOf(AnsatzCircuit, CircuitT, Int(1), InstOf(Values, _symbolic_map=DictOf(SymbolT, Real(0, 1)))),
                 InstOf(Tracker, op=InstOf(QubitPauliOperator, _dict=DictOf(QpsT, Real()), _all_qubits=Const(set()))))


PointExpT = NTOf(ObservableExperiment, NTOf(AnsatzCircuit, CircuitT, Int(1), InstOf(Values, _symbolic_map=DictOf(SymbolT, Real(0, 1), 2, 2))),
                 InstOf(Tracker, op=InstOf(QubitPauliOperator, _dict=DictOf(QpsT, Real()), _all_qubits=Const(set()))))


def differ(a, b):
    return any(s not in b for s in a) or any(s not in a for s in b)


@P.contract(wire=ListOf(PointExpT), grids=ListOf(DictOf(QpsT, GridT)), axes=ListOf(AxesT))
def extracted(wire, grids, axes):
    require(len(wire) == len(grids) == len(axes))
    require(all(len(e.AnsatzCircuit.SymbolsDict._symbolic_map) == 2 for e in wire))
    require(all(e.ObservableTracker.op._dict.keys() == g.keys() for e, g in zip(wire, grids)))
    before = [dict(e.ObservableTracker.op._dict) for e in wire]
    out = sf.gen_result_extraction_task()([grids, wire, axes])[0]
    ensure("one operator per experiment", len(out) == len(wire))
    for o, e, g, ax in zip(out, wire, grids, axes):
        ensure("the strings of the experiment", o._dict.keys() == g.keys())
        where = list(e.AnsatzCircuit.SymbolsDict._symbolic_map.values())
        ensure("each string read from its own grid at the experiment's own point", all(o._dict[s] == at(ax, g[s], where) for s in g))
    ensure("the operators asked for are left unchanged", [e.ObservableTracker.op._dict for e in wire] == before)


@P.contract(e=PointExpT, g=DictOf(QpsT, GridT), ax=AxesT)
def refused(e, g, ax):
    require(len(e.AnsatzCircuit.SymbolsDict._symbolic_map) == 2)
    try:
        sf.gen_result_extraction_task()([[g], [e], [ax]])
        ok = True
    except Exception:
        ok = False
    ensure("results of other strings are refused", ok == (e.ObservableTracker.op._dict.keys() == g.keys()))


# ---- bounded: numpy
@P.harness(runs=150)
def filter_values(r, i):
    shape = [r.randint(1, 4) for _ in range(r.randint(1, 3))]
    tol = r.choice([0, 0.5, 1, 1.5, 3])
    g = np.array([complex(r.choice([0, 0.5, 1, -1, 1.5, 2, -3, r.gauss(0, 2)]), r.choice([0, 0, 1, r.gauss(0, 1)])) for _ in range(int(np.prod(shape)))]).reshape(shape)
    log(shape, tol, g.flatten().tolist())
    g0 = g.copy()
    out = SmallCoefficientSignalFilter(tol).filter(g)
    ensure("given values unchanged", np.array_equal(g, g0))
    ensure("same shape", out.shape == g.shape)
    for x in itertools.product(*map(range, shape)):
        ensure("exactly the values smaller than the tolerance become 0", out[x] == (0 if abs(g0[x]) < tol else g0[x]))


def rand_op(r, qs, k=None):
    d = {}
    for _ in range(k or r.randint(1, 3)):
        d[rand_string(r, qs, identity=False)] = r.choice([1.0, -0.5, 2.0, r.uniform(-2, 2)])
    return QubitPauliOperator(d)


def rand_exp(r, n_sym, tag=""):
    qs = r.choice([[Qubit(0)], [Qubit(0), Qubit(1)], [Qubit("b", 1), Qubit("a", 0)], [Qubit(2), Qubit(0)]])
    syms = [Symbol(tag + x) for x in r.sample("abcd", n_sym)]
    c = Circuit()
    for q in qs:
        c.add_qubit(q)
    for s in syms:
        for _ in range(r.randint(1, 2)):
            c.add_gate(r.choice([OpType.Rx, OpType.Ry]), [r.choice([1, 1, 1, 2, -1]) * s + r.choice([0, 0.1])], [r.choice(qs)])
        if len(qs) > 1:
            c.CX(*r.sample(qs, 2))
    if r.random() < 0.4:
        c.add_phase(0.3)
    sd = SymbolsDict.symbols_from_dict({s: 0.0 for s in syms})
    return c, syms, sd, qs


@P.harness(runs=60)
def grid_of_experiments(r, i):
    wire, vals = [], []
    for _ in range(r.randint(1, 3)):
        c, syms, sd, qs = rand_exp(r, r.randint(1, 3))
        wire.append(ObservableExperiment(AnsatzCircuit(c, r.randint(1, 99), sd), ObservableTracker(rand_op(r, qs))))
        vals.append([[round(r.uniform(0, 2), 2) for _ in range(r.randint(1, 3))] for _ in syms])
    log([(e.AnsatzCircuit.Circuit.get_commands(), v) for e, v in zip(wire, vals)])
    copies = [(e.AnsatzCircuit.Circuit.copy(), dict(e.AnsatzCircuit.SymbolsDict._symbolic_map)) for e in wire]
    mesh = sf.gen_param_grid_gen_task()([vals])[0]
    grids = sf.gen_obs_exp_grid_gen_task()([wire, mesh])[0]
    ensure("one grid per experiment", len(grids) == len(wire))
    for g, e, v, (c, m) in zip(grids, wire, vals, copies):
        ensure("a point for every choice of values", g.shape == tuple(len(x) for x in v))
        for x in itertools.product(*map(range, g.shape)):
            p = g[x]
            ensure("each symbol its own value", dict(p.AnsatzCircuit.SymbolsDict._symbolic_map) == {s: v[j][x[j]] for j, s in enumerate(e.AnsatzCircuit.SymbolsDict.symbols_list)})
            ensure("circuit, shots and observable of the experiment", p.AnsatzCircuit.Circuit == c and p.AnsatzCircuit.Shots == e.AnsatzCircuit.Shots and p.ObservableTracker.qubit_pauli_operator == e.ObservableTracker.qubit_pauli_operator)
        ensure("given experiment unchanged", e.AnsatzCircuit.Circuit == c and dict(e.AnsatzCircuit.SymbolsDict._symbolic_map) == m)
    cells, lengths, shapes = sf.gen_flatten_task()([grids])
    k = 0
    for g, n, s in zip(grids, lengths, shapes):
        ensure("flattened one grid after the other", n == g.size and tuple(s) == g.shape and all(a is b for a, b in zip(cells[k:k + n], g.flatten())))
        k += n
    ensure("nothing else", k == len(cells))
    ops = [QubitPauliOperator({s: float(j) for s in e.ObservableTracker.qubit_pauli_operator._dict}) for j, e in enumerate(cells)]
    back = sf.gen_reshape_task()([ops, lengths, shapes])[0]
    ensure("grids back", len(back) == len(grids))
    dicts = sf.gen_ndarray_to_dict_task()([back])[0]
    ensure("one dictionary per grid", len(dicts) == len(grids))
    k = 0
    for b, g, d, e in zip(back, grids, dicts, wire):
        ensure("shape", b.shape == g.shape)
        ensure("strings", set(d) == set(e.ObservableTracker.qubit_pauli_operator._dict))
        for x in itertools.product(*map(range, g.shape)):
            ensure("values back at their points", b[x] is ops[k])
            ensure("the value of each string at each point", all(d[s].shape == g.shape and d[s][x] == k for s in d))
            k += 1


@P.harness(runs=60)
def landscape(r, i):
    """the value returned is the filtered landscape interpolated at the experiment's point"""
    n = r.choice([1, 2, 3, 4, 5]) if i % 4 else r.choice([6, 7])
    tol = r.choice([0, 0, 0.5, 1.5, 5])
    wire, want = [], []
    for _ in range(r.randint(1, 3)):
        c, syms, sd, qs = rand_exp(r, 1 if n > 5 else r.randint(1, 2))
        top = 2 - 2 / n
        ax = [float(x) for x in np.linspace(0, 2, n, endpoint=False)]
        point = [r.choice(ax) if r.random() < 0.5 else min(round(r.uniform(0, top), 3), ax[-1]) for _ in syms]
        for s, v in zip(syms, point):
            sd.add_value(s, v)
        op = rand_op(r, qs)
        wire.append(ObservableExperiment(AnsatzCircuit(c, r.randint(1, 99), sd), ObservableTracker(op)))
        shape = (n,) * len(syms)
        exp = {}
        land = {s: np.zeros(shape) for s in op._dict}
        for x in itertools.product(range(n), repeat=len(syms)):
            cc = c.copy()
            cc.symbol_substitution({s: ax[j] for s, j in zip(syms, x)})
            for s, v in op._dict.items():
                land[s][x] = complex(v).real * complex(expval(cc, s)).real
        F = np.array([[np.exp(-2j * np.pi * a * b / n) for b in range(n)] for a in range(n)])
        for s, g in land.items():
            h = g.astype(complex)
            for d in range(len(syms)):
                h = np.moveaxis(np.tensordot(F, h, axes=([1], [d])), 0, d)
            near = np.abs(np.abs(h) - tol).min() < 1e-6 and tol > 0
            if near:
                raise Skip()
            h[np.abs(h) < tol] = 0
            for d in range(len(syms)):
                h = np.moveaxis(np.tensordot(F.conj() / n, h, axes=([1], [d])), 0, d)
            v = 0.0
            for x in itertools.product(range(n), repeat=len(syms)):
                w = 1.0
                for j, p in zip(x, point):
                    w *= max(0.0, 1 - abs(p - ax[j]) * n / 2) if n > 1 else 1.0
                v += w * h[x]
            exp[s] = v
        want.append(exp)
    if n == 1:
        raise Skip()
    log(n, tol, [(e.AnsatzCircuit.Circuit.get_commands(), e.AnsatzCircuit.SymbolsDict._symbolic_map, e.ObservableTracker.qubit_pauli_operator) for e in wire])
    before = [(e.AnsatzCircuit.Circuit.copy(), dict(e.AnsatzCircuit.SymbolsDict._symbolic_map), dict(e.ObservableTracker.qubit_pauli_operator._dict), list(e.ObservableTracker.measurement_circuits)) for e in wire]
    be = ExactBackend()
    kw = {}
    if i % 3 == 1:
        kw["experiment_mitex"] = MitEx(be)
    elif i % 3 == 2:
        kw["experiment_mitres"] = MitRes(be)
    m = gen_spectral_filtering_MitEx(be, n, signal_filter=SmallCoefficientSignalFilter(tol), **kw)
    out = m.run(wire)
    ensure("one operator per experiment", len(out) == len(wire))
    for o, w in zip(out, want):
        ensure("strings of the experiment", set(o._dict) == set(w))
        for s in w:
            ensure("the filtered landscape at the experiment's point", abs(complex(o._dict[s]) - w[s]) < 1e-5, (s, o._dict[s], w[s]))
    for e, (c, mp, op, ms) in zip(wire, before):
        ensure("given experiments unchanged", e.AnsatzCircuit.Circuit == c and dict(e.AnsatzCircuit.SymbolsDict._symbolic_map) == mp and dict(e.ObservableTracker.qubit_pauli_operator._dict) == op)
    ensure("circuits run compiled unless a MitEx or MitRes says otherwise", i % 3 != 0 or be.all_compiled())
    for e, (c, s), in [(wire[0], be.ran[0])]:
        ensure("run with the experiment's shots", s == e.AnsatzCircuit.Shots)
    ensure("every point run once per string", len(be.ran) == sum(n ** len(e.AnsatzCircuit.SymbolsDict._symbolic_map) * len(o._dict) for e, o in zip(wire, out)), (len(be.ran)))
