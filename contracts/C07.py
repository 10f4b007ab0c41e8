"""Measurement circuits measure the Pauli string they are recorded for."""
from contracts.common import *  # noqa
from contracts.fakes import *  # noqa
from contracts.sim import *  # noqa
from itertools import product
from typing import Any, NamedTuple
from pydv.ex import MODELS
from pytket import Bit, Qubit
from pytket.pauli import Pauli, QubitPauliString
from pytket.partition import PauliPartitionStrat, GraphColourMethod
from pytket.transform import CXConfigType
from pytket.utils import QubitPauliOperator
from qermit import MitEx, MitRes, ObservableTracker, SymbolsDict
from qermit.taskgraph.mitex import get_basic_measurement_circuit
from qermit.taskgraph import gen_MeasurementReduction_MitEx
from qermit.taskgraph import measurement_reduction as mr
from qermit.taskgraph.measurement_reduction import measurement_reduction_task_gen

T1, T2 = "qermit/taskgraph/mitex.py:", "qermit/taskgraph/measurement_reduction.py:"
P = Prop("C07", [T1 + "get_basic_measurement_circuit"])
P.functions += [T1 + "filter_observable_tracker_task_gen", T2 + "measurement_reduction_task_gen", T2 + "gen_MeasurementReduction_MitEx"]


def pauli_matrix(qps, qubits):
    m = np.eye(1)
    for q in qubits:
        m = np.kron(m, PM[qps.map.get(q, Pauli.I)])
    return m


def z_on(qubits, some):
    m = np.eye(1)
    for q in qubits:
        m = np.kron(m, PM[Pauli.Z] if q in some else np.eye(2))
    return m


STRINGS = [ps for n in range(0, 4) for ps in product([Pauli.I, Pauli.X, Pauli.Y, Pauli.Z], repeat=n)]


@P.harness(runs=3 * len(STRINGS))
def basic(r, i):
    """every string on up to 3 qubits (and 3 kinds of qubit names): parity of the bits is the string"""
    ps = STRINGS[i % len(STRINGS)]
    qs = [Qubit(k) for k in range(len(ps))] if i < len(STRINGS) else [Qubit("a", 7 - k) for k in range(len(ps))] if i < 2 * len(STRINGS) else rand_qubits(r, len(ps))
    qps = QubitPauliString(dict(zip(qs, ps)))
    log(qps)
    c, (s, bits, inv) = get_basic_measurement_circuit(qps)
    full = Circuit()
    for q in qs:
        full.add_qubit(q)
    full.append(c)
    m = measures(full)
    ensure("string recorded", s == qps)
    ensure("a bit of its own for every qubit that is not I", len(set(bits)) == len(bits) and sorted(map(str, (m[b] for b in bits))) == sorted(str(q) for q, p in zip(qs, ps) if p != Pauli.I))
    ensure("no other measurement", set(m) == set(bits))
    u = unitary(full, qs)
    obs = u.conj().T @ z_on(qs, {m[b] for b in bits}) @ u
    ensure("parity of the bits is the string", np.allclose(obs * (-1 if inv else 1), pauli_matrix(qps, qs)), obs)


STRATS = [PauliPartitionStrat.NonConflictingSets, PauliPartitionStrat.CommutingSets]
METHODS_ = [GraphColourMethod.Lazy, GraphColourMethod.LargestFirst, GraphColourMethod.Exhaustive]
CXS = [CXConfigType.Snake, CXConfigType.Star, CXConfigType.Tree, CXConfigType.MultiQGate]


def rand_op(r, qs, k=None):
    op = {}
    for _ in range(r.randint(1, 5) if k is None else k):
        op[rand_string(r, qs, identity=r.random() < 0.3)] = r.choice([1.0, -1.0, 0.5, r.uniform(-2, 2)])
    return op


@P.harness(runs=150)
def reduced(r, i):
    """measurement reduction: each string gets circuits that are the ansatz followed by a measurement of that string"""
    exps, txt = [], []
    for _ in range(r.randint(1, 2)):
        qs = rand_qubits(r, r.randint(1, 3))
        c = rand_circuit(r, qs) if r.random() < 0.7 else rand_clifford(r, qs)
        op = rand_op(r, qs)
        exps.append((c, op, r.randint(1, 9)))
        txt.append((c.get_commands(), op))
    strat, meth, cx = r.choice(STRATS), r.choice(METHODS_), r.choice(CXS)
    log(strat, meth, cx, txt)
    wires = [ObservableExperiment(AnsatzCircuit(c.copy(), s, SymbolsDict()), ObservableTracker(QubitPauliOperator(op))) for c, op, s in exps]
    out = measurement_reduction_task_gen(strat, meth, cx).run(wires)[0]
    ensure("an experiment per experiment", len(out) == len(exps))
    for (c, op, s), w in zip(exps, out):
        ensure("ansatz and shots kept", w.AnsatzCircuit.Circuit == c and w.AnsatzCircuit.Shots == s)
        t = w.ObservableTracker
        ensure("operator kept", {k: complex(v).real for k, v in t.qubit_pauli_operator._dict.items()} == op)
        ensure("not more circuits than strings", len(t.measurement_circuits) <= len(op))
        ensure("every string is measured", not t.get_empty_strings())
        qs = list(c.qubits)
        ua = unitary(c, qs)
        for qps in op:
            infos = t._qps_to_indices[qps]
            ensure("measured once", len(infos) == 1)
            for k, bits, inv in infos:
                mc = t.measurement_circuits[k].get_parametric_circuit()
                m = measures(mc)
                u = unitary(mc, qs) @ ua.conj().T
                obs = u.conj().T @ z_on(qs, {m[b] for b in bits}) @ u * (-1 if inv else 1)
                ensure("parity of its bits is the string on the ansatz state", len({m[b] for b in bits}) == len(bits) and np.allclose(obs, pauli_matrix(qps, qs)), (qps, mc.get_commands(), bits, inv))


@P.harness(runs=60)
def pipeline(r, i):
    """the measurement-reduction MitEx, and the one measuring each string on its own, return the exact expectations on a noiseless device"""
    exps = []
    for _ in range(r.randint(1, 3)):
        qs = rand_qubits(r, r.randint(1, 3))
        exps.append((rand_clifford(r, qs), rand_op(r, qs), r.randint(1, 9)))
    kw = dict(strategy=r.choice(STRATS), method=r.choice(METHODS_), cx_config=r.choice(CXS)) if r.random() < 0.7 else {}
    log(kw, [(c.get_commands(), op) for c, op, _ in exps])
    be = exact_backend()
    mitex = gen_MeasurementReduction_MitEx(be, **kw) if r.random() < 0.75 else MitEx(be)
    for again in range(2):
        be.jobs.clear()
        out = mitex.run([ObservableExperiment(AnsatzCircuit(c, s, SymbolsDict()), ObservableTracker(QubitPauliOperator(op))) for c, op, s in exps])
        ensure("an operator per experiment", len(out) == len(exps))
        for (c, op, s), o in zip(exps, out):
            ensure("coefficient times expectation", set(o._dict) == set(op) and all(abs(complex(o[k]) - v * expval(c, k)) < 1e-4 for k, v in op.items()), (o, op))
        ensure("not more jobs than strings", len(be.jobs) <= sum(len(op) for _, op, _ in exps))


QubitT = Opaque("Qubit", lambda k: Qubit(k), cls=Qubit)


class GivenString:
    def __init__(self, map):
        self.map = map


@P.contract(m=DictOf(QubitT, OneOf(Pauli.I, Pauli.X, Pauli.Y, Pauli.Z)))
def basic_any_length(m):
    s = GivenString(m)
    c, (back, bits, inv) = get_basic_measurement_circuit(s)
    read = [q for q in m if m[q] != Pauli.I]
    ensure("string recorded", back is s and not inv)
    ensure("a bit per qubit that is not I", len(bits) == len(read))
    want = Circuit()
    for q, p in m.items():
        if p != Pauli.I:
            want.add_qubit(q)
            if p == Pauli.X:
                want.H(q)
            elif p == Pauli.Y:
                want.Rx(0.5, q)
    for k, q in enumerate(read):
        want.add_bit(Bit(k), False)
        want.Measure(q, Bit(k))
    ensure("basis change and measurement of every qubit that is not I", c == want)
    ensure("bits in the order of the qubits", list(bits) == [Bit(k) for k, q in enumerate(read)])


# ---- measurement reduction: what pytket finds is recorded for the strings it belongs to
class Ansatz:
    """a circuit as the circuits appended to it"""

    def __init__(self, parts):
        self.parts = parts

    def copy(self):
        return Ansatz(self.parts)

    def append(self, circuit):
        self.parts = self.parts + [circuit]


class Recording(ObservableTracker):
    """a tracker that keeps what is added to it"""

    def add_measurement_circuit(self, circuit, info):
        self.added = getattr(self, "added", []) + [(circuit, list(info))]


class Setup(NamedTuple):
    measurement_circs: Any
    results: Any


class BitMap(NamedTuple):
    circ_index: Any
    bits: Any
    invert: Any


def with_setup(task, wire, setup):
    real = mr.measurement_reduction
    mr.measurement_reduction = lambda *a, **k: setup
    try:
        return task.run(wire)
    finally:
        mr.measurement_reduction = real


def model_with_setup(ex, a, k):
    MODELS[mr.measurement_reduction] = lambda ex, a2, k2: a[2]
    return ex.call(ex.getattr(a[0], "run"), [a[1]], {})


MODELS[with_setup] = model_with_setup
StringT = Opaque("QubitPauliString", lambda k: QubitPauliString(Qubit(k // 3), [Pauli.X, Pauli.Y, Pauli.Z][k % 3]))


@P.contract(coeffs=DictOf(StringT, Real()), circs=TupleOf(CircuitT, CircuitT), found=DictOf(StringT, ListOf(NTOf(BitMap, Int(0, 1), ListOf(Int(0)), Bool()))), shots=Int(1))
def reduced_recorded(coeffs, circs, found, shots):
    t = Recording(QubitPauliOperator(coeffs))
    ansatz, d = Ansatz([]), SymbolsDict()
    wire = [ObservableExperiment(AnsatzCircuit(ansatz, shots, d), t)]
    out = with_setup(measurement_reduction_task_gen(0, 0, 0), wire, Setup(list(circs), found))[0]
    ensure("the experiment goes on", len(out) == 1 and out[0].AnsatzCircuit.Circuit is ansatz and out[0].AnsatzCircuit.Shots == shots
           and out[0].AnsatzCircuit.SymbolsDict is d and out[0].ObservableTracker is t)
    ensure("the ansatz circuit is left alone", len(ansatz.parts) == 0)
    ensure("every measurement circuit once", len(t.added) == 2)
    for k in range(2):
        c, infos = t.added[k]
        ensure("measured after the ansatz circuit", len(c.circuit.parts) == 1 and c.circuit.parts[0] == circs[k])
        want = [(s, [Bit(b) for b in v.bits], v.invert) for s, l in found.items() for v in l if v.circ_index == k]
        ensure("strings, bits and inversions found for the circuit", infos == want)
