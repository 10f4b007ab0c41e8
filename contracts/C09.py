"""Zero noise extrapolation: each experiment and string is extrapolated from its own values."""
from contracts.common import *  # noqa
from contracts.fakes import *  # noqa
from contracts.sim import *  # noqa
from pytket.architecture import Architecture
from pytket.circuit import Node
from pytket.passes import AutoRebase, DefaultMappingPass, FullPeepholeOptimise, RenameQubitsPass, SequencePass
from pytket.utils import QubitPauliOperator
from pydv.ex import CONTRACTS, MODELS
from pytket import Qubit
from pytket.pauli import Pauli, QubitPauliString
from qermit import MitEx, MitRes, MitTask, ObservableTracker, SymbolsDict
from qermit.zero_noise_extrapolation import zne
from qermit.zero_noise_extrapolation.zne import Fit, Folding, gen_ZNE_MitEx

Z = "qermit/zero_noise_extrapolation/zne.py:"
P = Prop("C09", [Z + f for f in ("extrapolation_task_gen", "merge_experiments_task_gen", "gen_qubit_relabel_task", "qpo_node_relabel")])
QpsT = Opaque("QubitPauliString", lambda k: QubitPauliString({Qubit(k // 3): [Pauli.X, Pauli.Y, Pauli.Z][k % 3]}))
QpoT = InstOf(QubitPauliOperator, _dict=DictOf(QpsT, Real()), _all_qubits=Const(set()))


def fit(x, y, show, deg):
    return sum(a * b for a, b in zip(x, y)) + deg


@P.contract(base=ListOf(QpoT), other=ListOf(QpoT), third=ListOf(QpoT), xs=TupleOf(Real(), Real(), Real()), deg=Int(0, 3))
def extrapolated(base, other, third, xs, deg):
    require(len(base) == len(other) == len(third))
    require(all(a._dict.keys() == b._dict.keys() == c._dict.keys() for a, b, c in zip(base, other, third)))
    out = zne.extrapolation_task_gen(list(xs), fit, False, deg)([base, other, third])[0]
    ensure("one operator per experiment", len(out) == len(base))
    for o, a, b, c in zip(out, base, other, third):
        ensure("every string of the experiment", o._dict.keys() == a._dict.keys())
        ensure("its own values at every scaling, in order", all(
            o._dict[s] == fit(xs, [a._dict[s], b._dict[s], c._dict[s]], False, deg) for s in a._dict))


@P.contract(a=QpoT, b=QpoT, c=QpoT)
def merged(a, b, c):
    require(a._dict.keys() == c._dict.keys())
    out = zne.merge_experiments_task_gen()([[a, b, c], [0, 1, 0]])[0]
    ensure("one operator per experiment", len(out) == 2)
    ensure("mean over the circuits of the experiment", all(close(out[0]._dict[s], (a._dict[s] + c._dict[s]) / 2) for s in a._dict))
    ensure("same strings", out[0]._dict.keys() == a._dict.keys() and out[1]._dict == b._dict)


@P.contract(a=QpoT, b=QpoT)
def not_mergeable(a, b):
    try:
        zne.merge_experiments_task_gen()([[a, b], [0, 0]])
        ok = True
    except Exception:
        ok = False
    ensure("circuits of one experiment measure the same strings", ok == (a._dict.keys() == b._dict.keys()))


SymT = Opaque("Symbols", lambda k: ("symbols", k))
TrackT = Opaque("Tracker", lambda k: ("tracker", k))
ExpT = NTOf(ObservableExperiment, NTOf(AnsatzCircuit, CircuitT, Int(1), SymT), TrackT)


class Rebase:
    def rebase_pass(self):
        return self

    def apply(self, circuit):
        return False


@P.contract(wire=ListOf(ExpT), scaling=Real(1), k=OneOf(1, 2, 3), approx=Bool())
def folded_circuits(wire, scaling, k, approx):
    if k == 1:
        k = 1
    elif k == 2:
        k = 2
    else:
        k = 3

    def fold(circ, s, _allow_approx_fold, **kw):
        ensure("folded by the scaling of the branch", s == scaling and _allow_approx_fold == approx)
        return [circ] * k

    new, index = zne.digital_folding_task_gen(Rebase(), scaling, fold, approx)([wire])
    ensure("every sample of every circuit", len(new) == len(index) == k * len(wire))
    ensure("index names the experiment", list(index) == [i for i in range(len(wire)) for _ in range(k)])
    ensure("its own circuit, shots shared out, its own symbols and tracker", all(
        n.AnsatzCircuit.Circuit == w.AnsatzCircuit.Circuit and n.AnsatzCircuit.Shots == w.AnsatzCircuit.Shots // k
        and n.AnsatzCircuit.SymbolsDict == w.AnsatzCircuit.SymbolsDict and n.ObservableTracker == w.ObservableTracker
        for n, w in zip(new, [w for w in wire for _ in range(k)])))


# ---- duplication and compilation, experiment by experiment
class Unit:
    """a compilation unit: the circuit and where its qubits end up are functions of the circuit given"""

    def __init__(self, circuit):
        self.circuit, self.final_map = circuit, None


class Pass:
    def __init__(self, level):
        self.level = level

    def apply(self, unit):
        unit.final_map = placed(unit.circuit, self.level)
        unit.circuit = compiled(unit.circuit, self.level)


class Compiler:
    def default_compilation_pass(self, optimisation_level=2):
        return Pass(optimisation_level)


def compiled(circuit, level):
    return circuit.copy().add_barrier([0] * 0 + circuit.qubits[:1]).Rz(level / 8, circuit.qubits[0])


def placed(circuit, level):
    return {q: Node("q", level + k) for k, q in enumerate(circuit.qubits)}


callee(compiled, "Circuit")
callee(placed, "NodeMap")
MODELS[zne.CompilationUnit] = lambda ex, a, k: ex.construct(Unit, a, k)


def moved(string, node_map):
    return QubitPauliString({node_map[q]: p for q, p in string.map.items()})


def operator_moved(qpo, node_map):
    """what qpo_node_relabel does, checked by `relabelling`"""
    return QubitPauliOperator({moved(s, node_map): c for s, c in qpo._dict.items()})


callee(moved, "QubitPauliString")
CONTRACTS[zne.qpo_node_relabel] = lambda ex, a, k: (ex.trusted.add("qpo_node_relabel moves each string and keeps its coefficient"),
                                                    ex.call(operator_moved, list(a) + list(k.values()), {}))[1]


def with_units(task, wire):
    real = zne.CompilationUnit
    zne.CompilationUnit = Unit
    try:
        return task.run(wire)
    finally:
        zne.CompilationUnit = real


MODELS[with_units] = lambda ex, a, k: ex.call(ex.getattr(a[0], "run"), [a[1]], {})
StringT = Opaque("QubitPauliString", lambda k: QubitPauliString({Qubit(0): [Pauli.X, Pauli.Y, Pauli.Z][k % 3]}))
OneT = TupleOf(CircuitT, Int(1), SymT, StringT, Real())


@P.contract(ops=ListOf(OneT), n=OneOf(1, 2, 3))
def duplicated(ops, n):
    wire = [ObservableExperiment(AnsatzCircuit(c, k, d), ObservableTracker(QubitPauliOperator({s: x}))) for c, k, d, s, x in ops]
    n = 1 if n == 1 else 2 if n == 2 else 3
    outs = zne.gen_duplication_task(n).run(wire)
    ensure("as many wires as asked for", len(outs) == n)
    for out in outs:
        ensure("an experiment per experiment", len(out) == len(ops))
        ensure("its circuit, shots and symbols", all(o.AnsatzCircuit.Circuit == c and o.AnsatzCircuit.Shots == k and o.AnsatzCircuit.SymbolsDict == d
                                                     for o, (c, k, d, s, x) in zip(out, ops)))
        ensure("its operator", all(o.ObservableTracker.qubit_pauli_operator._dict[s] == x for o, (c, k, d, s, x) in zip(out, ops)))


@P.contract(ops=ListOf(OneT), level=Int(0, 2))
def compiled_first(ops, level):
    wire = [ObservableExperiment(AnsatzCircuit(c, k, d), ObservableTracker(QubitPauliOperator({s: x}))) for c, k, d, s, x in ops]
    out, maps = with_units(zne.gen_initial_compilation_task(Compiler(), level), wire)
    ensure("an experiment and a map per experiment", len(out) == len(maps) == len(ops))
    ensure("its circuit, compiled", all(o.AnsatzCircuit.Circuit == compiled(c, level) for o, (c, k, d, s, x) in zip(out, ops)))
    ensure("its shots and symbols", all(o.AnsatzCircuit.Shots == k and o.AnsatzCircuit.SymbolsDict == d for o, (c, k, d, s, x) in zip(out, ops)))
    ensure("where its qubits went", all(m == placed(c, level) for m, (c, k, d, s, x) in zip(maps, ops)))
    ensure("its string, on the qubits it went to", all(o.ObservableTracker.qubit_pauli_operator._dict[moved(s, placed(c, level))] == x for o, (c, k, d, s, x) in zip(out, ops)))


# ---- bounded
P.functions += [Z + f for f in ("Fit.polynomial", "Fit.linear", "Fit.richardson", "Fit.cube_root", "Fit.poly_exponential", "Fit.exponential",
                                "gen_duplication_task", "copy_mitex_wire", "gen_initial_compilation_task", "gen_noise_scaled_mitex", "gen_ZNE_MitEx")]


@P.harness(runs=200)
def fits(r, i):
    """the fit is the least-squares one of the family asked for, evaluated at zero"""
    n = r.randint(2, 6)
    x = sorted(r.sample([1, 1.5, 2, 2.5, 3, 4, 5, 7, 9], n))
    y = [r.uniform(-1, 1) for _ in x]
    if r.random() < 0.3:
        z = list(zip(x, y))
        r.shuffle(z)
        x, y = map(list, zip(*z))
    kind = r.choice(["linear", "richardson", "polynomial"])
    deg = {"linear": 1, "richardson": n - 1}.get(kind, r.randint(0, n - 1))
    log(x, y, kind, deg)
    a = np.vander(np.array(x), deg + 1, increasing=True)
    want = float(np.linalg.lstsq(a, np.array(y), rcond=None)[0][0])
    got = getattr(Fit, kind)(list(x), list(y), False, deg)
    ensure("least squares at zero", abs(got - want) < 1e-6 * (1 + abs(want)) * 10 ** n, (got, want))
    ensure("degrees that cannot be fitted are refused", raises(ValueError, Fit.polynomial, x, y, False, -1) and raises(ValueError, Fit.polynomial, x, y, False, n + 1))


def raises(exc, f, *a):
    try:
        f(*a)
    except exc:
        return True
    return False


@P.harness(runs=60)
def curve_fits(r, i):
    """exponentials, poly-exponentials and cube roots through the data are found"""
    x = sorted(set([1] + r.sample([1.5, 2, 2.5, 3, 4, 5], r.randint(3, 5))))
    a, b, c = r.uniform(-0.2, 0.2), r.choice([1, -1]) * r.uniform(0.3, 1), r.uniform(0.1, 0.6)
    kind = r.choice(["exponential", "poly_exponential", "cube_root"])
    f = {"exponential": lambda t: a + b * np.exp(-c * t), "poly_exponential": lambda t: a + b * np.exp(-c * t), "cube_root": lambda t: a + b * np.cbrt(t + c)}[kind]
    y = [float(f(t)) for t in x]
    log(kind, x, y)
    got = getattr(Fit, kind)(x, y, False, 1)
    ensure("value of the curve at zero", abs(got - f(0)) < 2e-2, (got, f(0)))
    ensure("degrees that cannot be fitted are refused", raises(ValueError, Fit.poly_exponential, x, y, False, -1) and raises(ValueError, Fit.poly_exponential, x, y, False, len(x) - 1))


def two(c):
    return sum(len(cmd.qubits) == 2 and cmd.op.type != OpType.Barrier for cmd in c.get_commands())


class NoisyDevice(FakeBackend):
    """mixes every distribution with the uniform one, by a polynomial in the number of two-qubit gates run"""

    def __init__(self, r, coeffs, how):
        self.coeffs, self.how, self.seen = coeffs, how, []
        super().__init__(self.answer_)
        self.shift = r.randint(0, 3)

    def answer_(self, c, s, k):
        n = len(c.bits)
        lam = sum(a * two(c) ** (k + 1) for k, a in enumerate(self.coeffs))
        d = distribution(c)
        self.seen.append((c, s))
        mix = {}
        for key in np.ndindex(*(2,) * n):
            mix[tuple(key)] = lam / 2 ** n + (1 - lam) * d.get(tuple(key), 0.0)
        return counts_result(exact_counts(mix, 1 << 40), c.bits)

    def default_compilation_pass(self, optimisation_level=2):
        base = AutoRebase({OpType.CX, OpType.TK1})
        if self.how == "plain":
            return base
        if self.how == "swaps":
            return SequencePass([FullPeepholeOptimise(), base])
        if self.how == "route":
            return SequencePass([DefaultMappingPass(Architecture([(Node(5), Node(6)), (Node(6), Node(7)), (Node(7), Node(8))])), base])
        return SequencePass([RenameQubitsPass({Qubit(k): Node("n", (k + 1 + self.shift) % 5) for k in range(4)}), base])


def rand_zne_circuit(r):
    n = r.randint(2, 3)
    c = Circuit(n)
    for _ in range(r.randint(1, 6)):
        a = r.sample(range(n), 2)
        k = r.random()
        if k < 0.4:
            c.CX(*a)
        elif k < 0.5:
            c.SWAP(*a)
        elif k < 0.6:
            c.ZZPhase(r.uniform(0, 1), *a)
        elif k < 0.8:
            c.Ry(r.choice([0.5, 1.0, r.random()]), a[0])
        else:
            getattr(c, r.choice(["H", "X", "S", "V"]))(a[0])
    return c


def rand_operator(r, c):
    return {rand_string(r, c.qubits, identity=False): r.choice([1.0, -0.5, 2.0]) for _ in range(r.randint(1, 3))}


@P.harness(runs=60)
def pipeline(r, i):
    """noise growing polynomially with the two-qubit gates is removed, experiment by experiment, however circuits are compiled"""
    kind = r.choice(["linear", "richardson", "polynomial", "richardson"])
    m = {"linear": r.randint(2, 3), "richardson": r.randint(2, 3), "polynomial": 3}[kind]
    xs = [1] + r.sample([3, 5, 7], m - 1)
    if r.random() < 0.3:
        r.shuffle(xs)
    exps = []
    for _ in range(r.randint(1, 3)):
        c = rand_zne_circuit(r)
        exps.append((c, rand_operator(r, c), r.randint(1, 99)))
    top = 60 * max(xs)
    coeffs = [0.3 / top] + ([0.3 / top ** 2] if m == 3 and kind != "linear" else [])
    be = NoisyDevice(r, coeffs, r.choice(["plain", "swaps", "route", "rename"]))
    fold = Folding.circuit
    if all(two(_compiled(be, c)) for c, _, _ in exps) and r.random() < 0.6:
        fold = Folding.two_qubit_gate
    log(kind, xs, be.how, fold.__name__, [(c.get_commands(), op, s) for c, op, s in exps])
    mitex = gen_ZNE_MitEx(be, xs, folding_type=fold, fit_type=getattr(Fit, kind), optimisation_level=r.choice([0, 1, 2]))
    for again in range(2):
        be.seen.clear()
        if again:
            exps = exps[::-1]
        given = [c.copy() for c, _, _ in exps]
        ops = [QubitPauliOperator(op) for _, op, _ in exps]
        out = mitex.run([ObservableExperiment(AnsatzCircuit(c, s, SymbolsDict()), ObservableTracker(o)) for (c, _, s), o in zip(exps, ops)])
        ensure("an operator per experiment", len(out) == len(exps))
        for (c, op, s), o in zip(exps, out):
            ensure("the strings asked for, on the qubits asked for", set(o._dict) == set(op), (o, op))
            for k, v in op.items():
                ensure("noise removed", abs(complex(o[k]) - v * expval(c, k)) < 1e-4, (k, o[k], v * expval(c, k)))
        ensure("the experiments given are kept", given == [c for c, _, _ in exps] and all(o._dict == op for o, (_, op, _) in zip(ops, exps)))
        ensure("shots", sorted(s for _, s in be.seen) == sorted(s for _, op, s in exps for _ in op for _ in xs))


def _compiled(be, c):
    d = c.copy()
    be.default_compilation_pass().apply(d)
    return d


@P.harness(runs=100)
def merging(r, i):
    """means over the circuits of each experiment, in any order"""
    n = r.randint(1, 4)
    sets = [[rand_string(r, [Qubit(0), Qubit(1)]) for _ in range(r.randint(0, 3))] for _ in range(n)]
    index = list(range(n)) + [r.randrange(n) for _ in range(r.randint(0, 5))]
    r.shuffle(index)
    qpos = [QubitPauliOperator({s: r.uniform(-1, 1) for s in sets[k]}) for k in index]
    log(index, qpos)
    keep = [dict(q._dict) for q in qpos]
    out = zne.merge_experiments_task_gen()([qpos, index])[0]
    ensure("one operator per experiment", len(out) == n)
    for k, o in enumerate(out):
        own = [q for j, q in zip(index, keep) if j == k]
        ensure("mean", set(o._dict) == set(sets[k]) and all(abs(complex(o._dict[s]) - sum(complex(q[s]) for q in own) / len(own)) < 1e-9 for s in sets[k]), (k, o))
    ensure("operators given are kept", keep == [dict(q._dict) for q in qpos])


@P.harness(runs=100)
def relabelling(r, i):
    """strings move with their qubits, and the relabelling task undoes the compilation task"""
    n = r.randint(1, 4)
    qs = rand_qubits(r, n)
    nodes = [Node(k) for k in range(n)] if r.random() < 0.5 else qs[:]
    r.shuffle(nodes)
    maps = dict(zip(qs, nodes))
    qpos = [QubitPauliOperator({rand_string(r, qs): r.uniform(-1, 1) for _ in range(r.randint(0, 4))}) for _ in range(r.randint(1, 3))]
    log(maps, qpos)
    keep = [dict(q._dict) for q in qpos]
    moved = [zne.qpo_node_relabel(q, maps) for q in qpos]
    for q, w in zip(keep, moved):
        ensure("same coefficients on the moved strings", {QubitPauliString({maps[a]: p for a, p in s.map.items()}): v for s, v in q.items()} == w._dict, (q, w))
    back = zne.gen_qubit_relabel_task()([moved, [maps] * len(moved)])[0]
    ensure("undone", [dict(q._dict) for q in back] == keep and [dict(q._dict) for q in qpos] == keep)


@P.harness(runs=60)
def duplicates(r, i):
    """equal and independent copies"""
    n = r.randint(1, 4)
    wire = [ObservableExperiment(AnsatzCircuit(rand_circuit(r, rand_qubits(r, 2)), r.randint(1, 9), SymbolsDict()), ObservableTracker(QubitPauliOperator({rand_string(r, [Qubit(0)]): 1.0})))
            for _ in range(r.randint(0, 3))]
    log(n, wire)
    before = [(w.AnsatzCircuit.Circuit.copy(), w.AnsatzCircuit.Shots, dict(w.ObservableTracker.qubit_pauli_operator._dict)) for w in wire]
    out = zne.gen_duplication_task(n)([wire])
    ensure("as many as asked for", len(out) == n)

    def same(a):
        return [(w.AnsatzCircuit.Circuit, w.AnsatzCircuit.Shots, dict(w.ObservableTracker.qubit_pauli_operator._dict)) for w in a] == before

    ensure("equal", all(same(o) for o in out))
    k = r.randrange(n)
    for w in out[k]:
        w.AnsatzCircuit.Circuit.H(w.AnsatzCircuit.Circuit.qubits[0])
        w.ObservableTracker.qubit_pauli_operator._dict[QubitPauliString({Qubit(9): Pauli.X})] = 2.0
    ensure("independent", same(wire) and all(same(o) for j, o in enumerate(out) if j != k))
    ensure("at least one copy", raises(ValueError, zne.gen_duplication_task(0), [wire]))


@P.harness(runs=100)
def orders(r, i):
    """strings are told apart by themselves and not by their place in the operators"""
    xs, n = sorted(r.sample([1, 2, 3, 5, 7], r.randint(2, 4))), r.randint(1, 3)
    strings = [[QubitPauliString({Qubit(k // 3): [Pauli.X, Pauli.Y, Pauli.Z][k % 3]}) for k in r.sample(range(9), r.randint(0, 4))] for _ in range(n)]
    vals = [[{s: r.uniform(-1, 1) for s in r.sample(w, len(w))} for w in strings] for _ in xs]
    log(xs, vals)
    got = zne.extrapolation_task_gen(xs, fit, False, 1)([[QubitPauliOperator(d) for d in row] for row in vals])[0]
    ensure("one operator per experiment", len(got) == n)
    for k, o in enumerate(got):
        ensure("its own values", set(o._dict) == set(strings[k]) and all(
            abs(complex(o[s]) - fit(xs, [row[k][s] for row in vals], False, 1)) < 1e-9 for s in strings[k]), (k, o))
