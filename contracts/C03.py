"""MitEx: experiments are collated for one device run and their results are handed back to the right experiment."""
from contracts.common import *  # noqa
from contracts.fakes import *  # noqa
from pydv.ex import Bi, METHODS, MODELS
from pydv.values import Opq
from qermit.taskgraph.mitex import collate_circuit_shots_task_gen, split_results_task_gen, get_expectations_task_gen
from pytket import Qubit
from pytket.pauli import Pauli, QubitPauliString
from sympy import Symbol
from qermit import SymbolsDict
from qermit.taskgraph.mitex import filter_observable_tracker_task_gen, get_basic_measurement_circuit
from qermit.taskgraph.utils import MeasurementCircuit

P = Prop("C03", ["qermit/taskgraph/mitex.py:collate_circuit_shots_task_gen"])
ResultT = Opaque("Result", lambda k: ("result", k))


@P.contract(wires=ListOf(ListOf(Shots(1))))
def collate(wires):
    jobs, sizes = collate_circuit_shots_task_gen().run(wires)
    ensure("sizes", list(sizes) == [len(w) for w in wires])
    ensure("every job, in order", list(jobs) == [c for w in wires for c in w])


@P.contract(results=ListOf(ResultT), sizes=ListOf(Int(0)))
def split(results, sizes):
    require(sum(sizes) == len(results))
    out = split_results_task_gen().run(results, sizes)[0]
    ensure("a group per experiment", len(out) == len(sizes))
    ensure("each experiment gets as many results as it asked for", all(len(o) == n for o, n in zip(out, sizes)))
    ensure("each experiment gets its own results, in order",
           all(list(out[e]) == results[sum(sizes[:e]):sum(sizes[: e + 1])] for e in range(len(sizes))))


@P.contract(results=ListOf(ListOf(ResultT)), n=Int(0))
def expectations_mismatch(results, n):
    require(n != len(results))
    try:
        get_expectations_task_gen().run(results, [None for _ in range(n)])
        ok = False
    except ValueError:
        ok = True
    ensure("a tracker without results is refused", ok)


class StandIn:
    """an observable tracker whose expectations are a free function of itself and the results it is given"""

    def __init__(self, k):
        self.k, self.cleared = k, False

    def get_expectations(self, results):
        return ("expectations", "cleared" if self.cleared else self.k, tuple(results))

    def clear(self):
        self.cleared = True


def expected(tracker, results):
    return ("expectations", tracker.k, tuple(results))


MODELS[expected] = lambda ex, a, k: Opq(ex.fterm("expected", [ex.term(x) for x in a]), "Operator")
METHODS[("StandIn", "get_expectations")] = Bi(lambda ex, v, a, k: MODELS[expected](ex, [v] + list(a) + list(k.values()), {}), "get_expectations")
METHODS[("StandIn", "clear")] = Bi(lambda ex, v, a, k: None, "clear")


@P.contract(pairs=ListOf(TupleOf(ListOf(ResultT), Opaque("StandIn", lambda k: StandIn(k), cls=StandIn))))
def each_tracker_its_results(pairs):
    out = get_expectations_task_gen().run([r for r, t in pairs], [t for r, t in pairs])[0]
    ensure("an operator per experiment", len(out) == len(pairs))
    ensure("each tracker is given the results of its own experiment", all(o == expected(t, r) for o, (r, t) in zip(out, pairs)))


class Ansatz:
    """a circuit as the circuits appended to it and the values substituted"""

    def __init__(self, k, parts, values):
        self.k, self.parts, self.values, self.qubits = k, parts, values, [Qubit(0)]

    def copy(self):
        return Ansatz(self.k, self.parts, self.values)

    def append(self, circuit):
        self.parts = self.parts + [circuit]

    def symbol_substitution(self, values):
        self.values = dict(values)


class Operator:
    def __init__(self):
        self.all_qubits = set()


class Measured:
    """a tracker as its strings without measurement circuits and the measurement circuits it is given"""

    def __init__(self, empty, circuits):
        self.empty, self.measurement_circuits, self.infos, self.qubit_pauli_operator = empty, list(circuits), [], Operator()

    def get_empty_strings(self):
        return list(self.empty)

    def add_measurement_circuit(self, circuit, info):
        self.measurement_circuits.append(circuit)
        self.infos.append(info)


MODELS[get_basic_measurement_circuit] = lambda ex, a, k: (
    Opq(ex.fterm("basic_circuit", [ex.term(a[0])]), "Circuit"), Opq(ex.fterm("basic_info", [ex.term(a[0])]), "Info"))
SYMBOL = Symbol("a")
StringT = Opaque("QubitPauliString", lambda k: QubitPauliString(Qubit(0), [Pauli.X, Pauli.Y, Pauli.Z][k % 3]))


@P.contract(strings=TupleOf(ListOf(StringT), ListOf(StringT)), before=TupleOf(ListOf(Int()), ListOf(Int())), shots=TupleOf(Int(1), Int(1)), x=TupleOf(Real(), Real()))
def measured(strings, before, shots, x):
    symbols, trackers, wire = [], [], []
    for e in range(2):
        d = SymbolsDict()
        d.add_symbol(SYMBOL)
        d.add_value(SYMBOL, x[e])
        symbols.append(d)
        trackers.append(Measured(strings[e], [MeasurementCircuit(Ansatz(b, [], {}), d) for b in before[e]]))
        wire.append(ObservableExperiment(AnsatzCircuit(Ansatz(-e, [], {}), shots[e], d), trackers[e]))
    jobs, out = filter_observable_tracker_task_gen().run(wire)
    ensure("jobs and a tracker for each experiment", len(jobs) == 2 and len(out) == 2 and out[0] is trackers[0] and out[1] is trackers[1])
    for e in range(2):
        n = len(before[e])
        ensure("a job per measurement circuit", len(jobs[e]) == n + len(strings[e]))
        ensure("shots of the experiment", all(j.Shots == shots[e] for j in jobs[e]))
        ensure("measurement circuits there are already come first", all(j.Circuit.k == b and len(j.Circuit.parts) == 0 for j, b in zip(jobs[e], before[e])))
        ensure("others measure their string after the ansatz circuit", all(
            j.Circuit.k == -e and len(j.Circuit.parts) == 1 and j.Circuit.parts[0] == get_basic_measurement_circuit(s)[0] for j, s in zip(jobs[e][n:], strings[e])))
        ensure("values of the experiment's symbols are substituted", all(len(j.Circuit.values) == 1 and close(j.Circuit.values[SYMBOL], x[e]) for j in jobs[e]))
        ensure("the tracker knows which string each measures", len(trackers[e].infos) == len(strings[e]) and all(
            len(i) == 1 and i[0] == get_basic_measurement_circuit(s)[1] for i, s in zip(trackers[e].infos, strings[e])))
    ensure("ansatz circuits are left alone", all(len(w.AnsatzCircuit.Circuit.parts) == 0 and len(w.AnsatzCircuit.Circuit.values) == 0 for w in wire))


# ---- bounded: the whole pipeline against direct linear algebra
from contracts.sim import *  # noqa
from sympy import Symbol
from pytket.utils import QubitPauliOperator
from qermit import MitEx, MitRes, MitTask, ObservableTracker, SymbolsDict
from typing import List, Tuple
from pytket.backends.backendresult import BackendResult
from qermit.taskgraph.mitex import filter_observable_tracker_task_gen, gen_compiled_MitRes, gen_compiled_shot_split_MitRes

P.functions += ["qermit/taskgraph/mitex.py:" + f for f in (
    "split_results_task_gen", "get_expectations_task_gen", "filter_observable_tracker_task_gen", "get_basic_measurement_circuit",
    "MitEx.__init__", "MitEx.run", "MitEx.run_basic", "MitEx.check_prepend_wires", "MitEx.check_append_wires", "gen_compiled_MitRes",
    "gen_compiled_shot_split_MitRes")]


def rand_experiment(r, clifford=True, k=0):
    qs = rand_qubits(r, r.randint(1, 4))
    c = rand_clifford(r, qs)
    sym, vals = SymbolsDict(), {}
    concrete = c.copy()
    for j in range(r.choice([0, 0, 1, 2])):
        s, v, q = Symbol(r.choice(["a", "b", f"s{k}"])), None, r.choice(qs)
        v = vals.setdefault(s, r.choice([0.5, 1.0, 1.5, -0.5]))
        ax = r.choice(["Rx", "Ry", "Rz"])
        getattr(c, ax)(s, q)
        getattr(concrete, ax)(v, q)
    for s, v in vals.items():
        sym.add_symbol(s)
        sym.add_value(s, v)
    op = {}
    for _ in range(r.randint(1, 4)):
        op[rand_string(r, qs)] = r.choice([1.0, -1.0, 0.5, r.uniform(-2, 2)])
    return c, sym, concrete, op


def coeff(x):
    return complex(x).real


def same_operator(got, want):
    return set(got._dict) == set(want) and all(abs(complex(got[k]) - v) < 1e-4 for k, v in want.items())


@P.harness(runs=80)
def pipeline(r, i):
    """noiseless MitEx: experiment k, string s -> coefficient times <psi_k|s|psi_k>, whatever else runs beside it"""
    be = exact_backend()
    how = r.choice(["default", "mitres", "compiled", "split"])
    mitex = {"default": lambda: MitEx(be), "mitres": lambda: MitEx(be, mitres=MitRes(be)),
             "compiled": lambda: MitEx(be, mitres=gen_compiled_MitRes(be, 0)),
             "split": lambda: MitEx(be, mitres=MitRes(be))}[how]()
    exps, wants, ops, txt = [], [], [], []
    for k in range(r.randint(1, 4)):
        c, sym, concrete, op = rand_experiment(r, k=k)
        shots = r.randint(1, 50)
        q = QubitPauliOperator(op)
        exps.append((AnsatzCircuit(c, shots, sym), q))
        wants.append({s: v * expval(concrete, s) for s, v in op.items()})
        ops.append(op)
        txt.append((concrete.get_commands(), op))
    log(how, txt)
    wires = [ObservableExperiment(a, ObservableTracker(q)) for a, q in exps]
    want_jobs = [e.AnsatzCircuit.Shots for e in wires for _ in e.ObservableTracker.qubit_pauli_operator._dict]
    for again in (0, 1):
        before = [e.AnsatzCircuit.Circuit.copy() for e in wires]
        be.jobs.clear()
        out = mitex.run(wires)
        ensure("an operator per experiment", len(out) == len(wires))
        for k, o in enumerate(out):
            ensure("expectation of every string of the experiment", same_operator(o, wants[k]), (k, o, wants[k]))
        ensure("shots of each experiment", [s for _, s in be.jobs] == want_jobs)
        ensure("circuits run compiled unless a MitRes says otherwise", how in ("mitres", "split") or be.all_compiled())
        ensure("ansatz circuits untouched", all(a == e.AnsatzCircuit.Circuit for a, e in zip(before, wires)))
        ensure("trackers ready to be used again", all(not e.ObservableTracker.measurement_circuits and
               set(e.ObservableTracker.get_empty_strings()) == set(op) for e, op in zip(wires, ops)))
    ensure("operators given are untouched", all(q._dict.keys() == op.keys() and all(abs(coeff(q[s]) - v) < 1e-9 for s, v in op.items())
                                               for (_, q), op in zip(exps, ops)))
    concrete = [(a, q) for a, q in exps if not a.SymbolsDict._symbolic_map]
    if concrete:
        out = mitex.run_basic([(CircuitShots(a.Circuit, a.Shots), q) for a, q in concrete])
        want = [w for w, (a, q) in zip(wants, exps) if not a.SymbolsDict._symbolic_map]
        ensure("run_basic gives the same", len(out) == len(want) and all(same_operator(o, w) for o, w in zip(out, want)))


@P.harness(runs=60)
def own_measurements(r, i):
    """strings that already have measurement circuits use exactly those: parity of their bits, inverted if asked"""
    wires, wants, txt = [], [], []
    tabs = {}

    def answer(c, s, k):
        return shots_result(tabs[c.name], sorted(c.bits))

    be = FakeBackend(answer)
    for k in range(r.randint(1, 3)):
        n = r.randint(1, 3)
        qs = [Qubit(j) for j in range(n)]
        strings = list({rand_string(r, qs, identity=False) for _ in range(r.randint(1, 4))})
        cs = {s: r.choice([1.0, -2.0, 0.5]) for s in strings}
        t = ObservableTracker(QubitPauliOperator(cs))
        want, todo = {}, list(strings)
        r.shuffle(todo)
        while todo:
            group = todo[: r.randint(1, 2)]
            todo = todo[len(group):]
            nm = f"m{k}_{len(tabs)}"
            m = Circuit(n, n, name=nm)
            for j in range(n):
                m.Measure(j, j)
            tabs[nm] = rand_table(r, r.randint(1, 6), n)
            info = []
            for s in group:
                bits = r.sample(range(n), r.randint(1, n))
                inv = r.random() < 0.4
                info.append((s, [Bit(b) for b in bits], inv))
                par = [(-1) ** sum(row[b] for b in bits) for row in tabs[nm]]
                want[s] = cs[s] * (-1 if inv else 1) * sum(par) / len(par)
            from qermit.taskgraph.utils import MeasurementCircuit
            t.add_measurement_circuit(MeasurementCircuit(m, SymbolsDict()), info)
        wires.append(ObservableExperiment(AnsatzCircuit(Circuit(n), 5, SymbolsDict()), t))
        wants.append(want)
        txt.append((tabs, want))
    log(txt)
    out = MitEx(be, mitres=MitRes(be)).run(wires)
    for o, w in zip(out, wants):
        ensure("parity of the named bits of the named circuit", same_operator(o, w), (o, w))


@P.harness(runs=60)
def refusals(r, i):
    """tasks whose wires or types do not fit are refused; a string on unknown qubits is refused"""
    be = exact_backend()

    def t_mid(obj, x: List[ObservableExperiment]) -> Tuple[List[ObservableExperiment]]:
        return (x,)

    def t_end(obj, x: List[QubitPauliOperator]) -> Tuple[List[QubitPauliOperator]]:
        return (x,)

    def c_mid(obj, x: List[CircuitShots]) -> Tuple[List[CircuitShots]]:
        return (x,)

    def c_end(obj, x: List[BackendResult]) -> Tuple[List[BackendResult]]:
        return (x,)

    def none(obj, x):
        return (x,)

    mk = lambda f, n=1, m=1: MitTask(_label=f.__name__, _n_in_wires=n, _n_out_wires=m, _method=f)  # noqa
    n, m = r.choice([(1, 1), (1, 1), (2, 1), (1, 2)])
    f = r.choice([t_mid, t_end, c_mid, c_end, none])
    log(f.__name__, n, m)
    fits = {("ex", "prepend"): t_mid, ("ex", "append"): t_end, ("res", "prepend"): c_mid, ("res", "append"): c_end}
    for g, op in fits:
        G_ = MitEx(be) if g == "ex" else MitRes(be)
        ok = f is fits[(g, op)] and (n, m) == (1, 1)
        before = len(G_.tasks)
        try:
            getattr(G_, op)(mk(f, n, m))
            done = True
        except (AssertionError, TypeError, ValueError):
            done = False
        ensure("accepted exactly when wires and types fit", done == ok, (g, op, f.__name__, n, m))
        ensure("graph changed only on acceptance", len(G_.tasks) == before + (1 if done else 0))
    for G_ in (MitEx(be), MitRes(be)):
        for call in (lambda: G_.add_wire(), lambda: G_.add_n_wires(1), lambda: G_.parallel(mk(none))):
            try:
                call()
                ok = False
            except TypeError:
                ok = True
            ensure("wires cannot be added", ok)
    q = QubitPauliOperator({QubitPauliString(Qubit(r.randint(2, 5)), Pauli.Z): 1.0})
    try:
        MitEx(be).run([ObservableExperiment(AnsatzCircuit(Circuit(2), 1, SymbolsDict()), ObservableTracker(q))])
        ok = False
    except Exception:
        ok = True
    ensure("unknown qubits are refused", ok)


@P.harness(runs=20)
def wires_announced(r, i):
    """the tasks, appended one after another in a graph of the user, give what MitEx gives"""
    from qermit import TaskGraph
    from qermit.taskgraph.mitres import backend_handle_task_gen, backend_res_task_gen

    be = exact_backend()
    wires = []
    for _ in range(r.randint(1, 3)):
        qs = rand_qubits(r, r.randint(1, 2))
        wires.append((rand_clifford(r, qs), QubitPauliOperator({rand_string(r, qs, identity=False): 1.0 for _ in range(r.randint(1, 2))}), r.randint(1, 9)))
    log([(c.get_commands(), op) for c, op, _ in wires])
    run = TaskGraph()
    run.append(backend_handle_task_gen(be))
    run.append(backend_res_task_gen(be))
    run.add_n_wires(2)
    g = TaskGraph()
    g.append(filter_observable_tracker_task_gen())
    ensure("circuits and trackers", g.n_out_wires == 2)
    collate = TaskGraph()
    collate.append(collate_circuit_shots_task_gen())
    collate.add_wire()
    g.append(collate)
    ensure("jobs, sizes and trackers", g.n_out_wires == 3)
    g.append(run)
    split = TaskGraph()
    split.add_wire()
    split.append(split_results_task_gen())
    split.add_wire()
    g.append(split)
    g.append(get_expectations_task_gen())
    ensure("one output", g.n_out_wires == 1 and g.n_in_wires == 1)
    out = g.run([[ObservableExperiment(AnsatzCircuit(c, s, SymbolsDict()), ObservableTracker(op)) for c, op, s in wires]])[0]
    ensure("expectations of every experiment", len(out) == len(wires) and all(
        set(o._dict) == set(op._dict) and all(abs(complex(o._dict[k]) - expval(c, k)) < 1e-4 for k in op._dict) for o, (c, op, _) in zip(out, wires)), out)
