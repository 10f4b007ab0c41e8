"""Learning-based probabilistic error cancellation: training circuits, errors inserted, quasi-probabilities and their use."""
from contracts.common import *  # noqa
from contracts.fakes import *  # noqa
from contracts.sim import *  # noqa
from types import SimpleNamespace
from pydv.ex import CONTRACTS, METHODS, MODELS
from pydv.values import Opq, Pull, Seq, z3
from pytket import Circuit, Qubit, OpType
from pytket.circuit import Node, Op, fresh_symbol
from pytket.passes import AutoRebase, RenameQubitsPass, SequencePass
from pytket.pauli import Pauli, QubitPauliString
from pytket.predicates import CliffordCircuitPredicate
from pytket.utils import QubitPauliOperator
from qermit import AnsatzCircuit, MitEx, ObservableExperiment, ObservableTracker, SymbolsDict
from qermit.probabilistic_error_cancellation import cliff_circuit_gen as gen
from qermit.probabilistic_error_cancellation import pec_learning_based as pec

S = "qermit/probabilistic_error_cancellation/pec_learning_based.py:"
G = "qermit/probabilistic_error_cancellation/cliff_circuit_gen.py:"
LEVEL = "exploration"
P = Prop("C12", [S + "gen_run_with_quasi_prob", S + "collate_results_task_gen"])
QpsT = Opaque("QubitPauliString", lambda k: QubitPauliString({Qubit(k // 3): [Pauli.X, Pauli.Y, Pauli.Z][k % 3]}))
AnyT = Opaque("Operator", lambda k: ("operator", k))
R3 = TupleOf(Real(), Real(), Real())


@P.contract(s=QpsT, t=QpsT, u=QpsT, q=TupleOf(R3, R3, R3, R3), x=TupleOf(R3, R3, R3, R3))
def mitigated(s, t, u, q, x):
    require(s != t)
    # four experiments: two strings with three errors each, one string with three, with two and with one
    noisy = [QubitPauliOperator({s: x[0][j], t: x[1][j]}) for j in range(3)] + [QubitPauliOperator({u: x[2][j]}) for j in range(3)]
    noisy += [QubitPauliOperator({s: x[3][j]}) for j in range(2)] + [QubitPauliOperator({t: x[3][2]})]
    probs = [[list(q[0]), list(q[1])], [list(q[2])], [[q[3][0], q[3][1]]], [[q[3][2]]]]
    out = pec.gen_run_with_quasi_prob().run(probs, noisy, [])[0]
    ensure("an operator per experiment", len(out) == 4 and len(out[0]._dict) == 2 and all(len(o._dict) == 1 for o in out[1:]))
    for o, k, w in ((out[0], s, 0), (out[0], t, 1), (out[1], u, 2)):
        ensure("each error by its own quasi-probability for the string", close(o[k], q[w][0] * x[w][0] + q[w][1] * x[w][1] + q[w][2] * x[w][2]))
    ensure("third experiment", close(out[2][s], q[3][0] * x[3][0] + q[3][1] * x[3][1]))
    ensure("fourth experiment", close(out[3][t], q[3][2] * x[3][2]))


@P.harness(runs=150)
def all_mitigated(r, i):
    """any number of experiments, strings and errors: each string by its own quasi-probabilities"""
    probs, noisy, want = [], [], []
    for _ in range(r.randint(1, 5)):
        n, strings = r.randint(1, 5), r.sample([QubitPauliString({Qubit(k // 3): [Pauli.X, Pauli.Y, Pauli.Z][k % 3]}) for k in range(9)], r.randint(1, 4))
        x = [[r.uniform(-1, 1) for _ in strings] for _ in range(n)]
        q = [[r.uniform(-2, 2) for _ in range(n)] for _ in strings]
        probs.append(q)
        noisy += [QubitPauliOperator(dict(zip(strings, l))) for l in x]
        want.append({s: sum(q[k][j] * x[j][k] for j in range(n)) for k, s in enumerate(strings)})
    log(probs, noisy)
    out = pec.gen_run_with_quasi_prob()([probs, noisy, []])[0]
    ensure("as many as there are experiments", len(out) == len(want))
    for o, w in zip(out, want):
        ensure("its strings, by their quasi-probabilities", set(o._dict) == set(w) and all(abs(complex(o[s]) - v) < 1e-9 for s, v in w.items()), (o, w))


@P.contract(ideal=ListOf(AnyT, min=8, max=8), noisy=ListOf(AnyT, min=16, max=16), n=Int(0), m=Int(0))
def collated(ideal, noisy, n, m):
    # two experiments of two strings, two training circuits each, two errors per training circuit
    istr = [{"experiment": e, "qps": s, "training_circuit": c} for e in range(2) for s in range(2) for c in range(2)]
    nstr = [{"experiment": e, "error": k} for e in range(8) for k in range(2)]
    out = pec.collate_results_task_gen().run(list(noisy), nstr, list(ideal), istr)[0]
    ensure("each error with the noiseless value of its own training circuit", all(
        out[e][s][c][k][0] == noisy[2 * (4 * e + 2 * s + c) + k] and out[e][s][c][k][1] == ideal[4 * e + 2 * s + c]
        for e in range(2) for s in range(2) for c in range(2) for k in range(2)))
    ensure("nothing else", len(out) == 2 and all(len(o) == 2 and all(len(p) == 2 and all(len(z) == 2 for z in p) for p in o) for o in out))
    for a, b in ((list(noisy)[:15], list(ideal)), (list(noisy), list(ideal)[:7])):
        try:
            pec.collate_results_task_gen().run(a, nstr, b, istr)
            ok = False
        except RuntimeError:
            ok = True
        ensure("results without a place are refused", ok)


# ---- each experiment is rebased, labelled and wrapped on its own
callee(pec.PECRebase, "Circuit")
callee(pec.label_gates, "Circuit")
callee(pec.wrap_frame_gates, "Circuit")

def step_circuit(k, step):
    c = pec.PECRebase(Circuit(2).Rx(0.1 + k, 0).CX(0, 1).Rz(0.2 * k + 0.1, 1).CX(1, 0))
    for f in (pec.label_gates, pec.wrap_frame_gates)[:step]:
        c = f(c)
    return c


def given(step):
    circuit = Opaque("Circuit", lambda k: step_circuit(k, step), cls=Circuit)
    symbols = Opaque("Symbols", lambda k: SymbolsDict())
    tracker = Opaque("Tracker", lambda k: ObservableTracker(QubitPauliOperator({QubitPauliString({Qubit(k % 2): Pauli.Z}): 1.0 + k})))
    return ListOf(NTOf(ObservableExperiment, NTOf(AnsatzCircuit, circuit, Int(1), symbols), tracker))


def same_symbols(a, b):
    return a._symbolic_map == b._symbolic_map


def same_tracker(a, b):
    return a.qubit_pauli_operator == b.qubit_pauli_operator and len(a.measurement_circuits) == len(b.measurement_circuits)


MODELS[same_symbols] = MODELS[same_tracker] = lambda ex, a, k: ex.eq(a[0], a[1])


def each_on_its_own(out, wire, f):
    ensure("an experiment per experiment", len(out) == len(wire))
    ensure("its own circuit", all(o.AnsatzCircuit.Circuit == f(w.AnsatzCircuit.Circuit) for o, w in zip(out, wire)))
    ensure("its own shots", all(o.AnsatzCircuit.Shots == w.AnsatzCircuit.Shots for o, w in zip(out, wire)))
    ensure("its own symbols", all(same_symbols(o.AnsatzCircuit.SymbolsDict, w.AnsatzCircuit.SymbolsDict) for o, w in zip(out, wire)))
    ensure("its own operator", all(same_tracker(o.ObservableTracker, w.ObservableTracker) for o, w in zip(out, wire)))


@P.contract(wire=given(0))
def rebased(wire):
    each_on_its_own(pec.gen_rebase_to_frames_and_computing().run(wire)[0], wire, pec.PECRebase)


@P.contract(wire=given(0))
def labelled(wire):
    each_on_its_own(pec.gen_label_gates().run(wire)[0], wire, pec.label_gates)


@P.contract(wire=given(1))
def wrapped(wire):
    each_on_its_own(pec.gen_wrap_frame_gates().run(wire)[0], wire, pec.wrap_frame_gates)


# ---- circuits with errors: every error of every circuit, on the circuit's own terms
def list_errors(ex, a, k):
    ex.trusted.add("list_pauli_gates is a function of the circuit (it is checked by noisy_circuits)")
    ex.inexact = True
    c = ex.term(list(a)[0] if a else list(k.values())[0])
    n = ex.fterm("errors_of", [c], z3.IntSort())
    n = z3.If(n >= 0, n, 0)
    i = ex.fresh_idx("e")
    return Seq([Pull(n, i, Opq(ex.fterm("error", [c, i]), "Error"))], "tuple")


CONTRACTS[pec.list_pauli_gates] = list_errors
METHODS[("Error", "__getitem__")] = lambda ex, v, a, k: (
    Opq(ex.fterm("opgroup", [v.t]), "Name") if a[0] == "opgroup" else (Opq(ex.fterm("pauli0", [v.t]), "Letter"), Opq(ex.fterm("pauli1", [v.t]), "Letter")))
callee(pec.substitute_pauli_but_one, "Circuit")
callee(pec.str_to_pauli_op, "Op")


class Compiler:
    def get_compiled_circuit(self, circuit, optimisation_level=2):
        return compiled(circuit, optimisation_level)


def compiled(circuit, level):
    return circuit.copy().add_barrier(circuit.qubits).Rz(level, circuit.qubits[0])


callee(compiled, "Circuit")
ErrT = TupleOf(Opaque("Circuit", lambda k: step_circuit(k, 2), cls=Circuit), Int(1), Opaque("Symbols", lambda k: SymbolsDict()), QpsT, Real())


@P.contract(runs=40, exps=ListOf(ErrT))
def noisy(exps):
    wire = [ObservableExperiment(AnsatzCircuit(c, n, d), ObservableTracker(QubitPauliOperator({s: x}))) for c, n, d, s, x in exps]
    out, structure = pec.gen_get_noisy_circuits(Compiler()).run(wire)
    want = [(j, k, c, e, n, s, x) for j, (c, n, d, s, x) in enumerate(exps) for k, e in enumerate(pec.list_pauli_gates(c))]
    ensure("an experiment for every error of every circuit", len(out) == len(want) and len(structure) == len(want))
    ensure("its place", all(p["experiment"] == j and p["error"] == k for p, (j, k, c, e, n, s, x) in zip(structure, want)))
    ensure("the error put into its own circuit", all(
        o.AnsatzCircuit.Circuit == compiled(pec.substitute_pauli_but_one(c, e["opgroup"], [pec.str_to_pauli_op(e["op"][0]), pec.str_to_pauli_op(e["op"][1])]), 0)
        for o, (j, k, c, e, n, s, x) in zip(out, want)))
    ensure("shots and operator of the experiment", all(
        o.AnsatzCircuit.Shots == n and o.ObservableTracker.qubit_pauli_operator._dict[s] == x for o, (j, k, c, e, n, s, x) in zip(out, want)))


# ---- bounded
P.functions += [S + f for f in ("random_commuting_clifford", "substitute_pauli", "substitute_pauli_but_one", "PECRebase", "gen_rebase_to_frames_and_computing",
                                "learn_quasi_probs_task_gen", "gen_get_clifford_training_set", "label_gates", "gen_label_gates", "wrap_frame_gates",
                                "gen_wrap_frame_gates", "list_pauli_gates", "gen_get_noisy_circuits", "gen_PEC_learning_based_MitEx", "str_to_pauli_op")]
P.functions += [G + f for f in ("sample_q_mallows", "clifford_canonical_F", "find_random_gamma_delta", "random_clifford_circ")]
PAULIS = {"I": Pauli.I, "X": Pauli.X, "Y": Pauli.Y, "Z": Pauli.Z}


def rand_pec_circuit(r, n=None, most=3):
    n = n or r.randint(2, 3)
    c = Circuit(n)
    cx = r.randint(1, most)
    for _ in range(r.randint(1, 5)):
        getattr(c, r.choice(["Rx", "Rz", "Ry"]))(r.uniform(0, 2), r.randrange(n))
    for _ in range(cx):
        c.CX(*r.sample(range(n), 2))
        for _ in range(r.randint(0, 2)):
            c.Rx(r.uniform(0, 2), r.randrange(n))
    if r.random() < 0.3:
        c.SWAP(*r.sample(range(n), 2))
        c.replace_SWAPs()
    return c


def named(circ):
    """(name, op, qubits) in order"""
    return [(cmd.opgroup, cmd.op, tuple(cmd.qubits)) for cmd in circ.get_commands()]


def framed(r, **kw):
    c = rand_pec_circuit(r, **kw)
    base = pec.PECRebase(c)
    lab = pec.label_gates(base)
    return c, base, lab, pec.wrap_frame_gates(lab)


def with_pauli(base, k, pair):
    """base circuit of TK1 and CX gates with a pair of Paulis on both sides of its k-th CX"""
    d, seen = Circuit(), 0
    for q in base.qubits:
        d.add_qubit(q)
    put = lambda qs: [getattr(d, p)(q) for p, q in zip(pair, qs) if p != "I"]
    for cmd in base.get_commands():
        if cmd.op.type == OpType.CX:
            if seen == k:
                put(cmd.qubits)
            d.add_gate(cmd.op, cmd.qubits)
            if seen == k:
                put(cmd.qubits)
            seen += 1
        else:
            d.add_gate(cmd.op, cmd.qubits)
    return d


@P.harness(runs=150)
def frames(r, i):
    """rebasing, labelling and wrapping keep the circuit; every single error of every frame is inserted, alone"""
    c, base, lab, wrap = framed(r)
    log(c.get_commands())
    keep = base.copy()
    ensure("same unitary in frames and computing gates", same_up_to_phase(unitary(c), unitary(base)) and {k.op.type for k in base.get_commands()} <= {OpType.CX, OpType.TK1})
    ensure("labelled without change", same_up_to_phase(unitary(lab), unitary(c)) and same_up_to_phase(unitary(wrap), unitary(c)))
    nf = sum(o.type == OpType.CX for _, o, _ in named(lab))
    names = [n for n, _, _ in named(lab)]
    ensure("every gate named by its kind, once", len(set(names)) == len(names) and all(
        (n.startswith("Frame") and o.type == OpType.CX) or (n.startswith("Computing") and o.type == OpType.TK1) for n, o, _ in named(lab)))
    if nf == 0:
        ensure("circuits without frames are refused", refused(RuntimeError, pec.list_pauli_gates, wrap))
        return
    errors = pec.list_pauli_gates(wrap)
    ensure("the circuit itself first", errors[0]["op"] == ["I", "I"])
    ensure("every error of every frame once", len(errors) == 15 * nf + 1 and len({(e["opgroup"], *e["op"]) for e in errors[1:]}) == 15 * nf)
    for e in r.sample(errors, 4):
        pair = [pec.str_to_pauli_op(p) for p in e["op"]]
        d = pec.substitute_pauli_but_one(wrap, e["opgroup"], pair)
        order = [n for n, o, _ in named(lab) if o.type == OpType.CX]
        want = with_pauli(base, order.index(e["opgroup"]), e["op"])
        ensure("the error alone, on both sides of its frame", same_up_to_phase(run_all(d), run_all(want)), (e, d.get_commands()))
        ensure("permutations are kept", d.implicit_qubit_permutation() == base.implicit_qubit_permutation())
    ensure("the circuit given is kept", base == keep and same_up_to_phase(unitary(wrap), unitary(c)))
    ensure("other frames are refused", refused(RuntimeError, pec.substitute_pauli_but_one, wrap, f"Frame {nf + 3}", [pec.str_to_pauli_op("X")] * 2))
    bad = r.choice([Circuit(1).T(0), Circuit(1).X(0), Circuit(2).CZ(0, 1), Circuit(1).H(0)])
    ensure("other gates are refused", refused(RuntimeError, pec.label_gates, bad))
    ensure("other names are refused", refused(ValueError, pec.substitute_pauli, wrap, "Computing 0", [pec.str_to_pauli_op("X")] * 2))


def run_all(c):
    """unitary of the commands alone"""
    qs = list(c.qubits)
    cols = []
    for k in range(2 ** len(qs)):
        e = np.zeros(2 ** len(qs), complex)
        e[k] = 1
        cols.append(run_state(c, qs, e.reshape((2,) * len(qs)), permute=False).reshape(-1))
    return np.array(cols).T


def refused(exc, f, *a):
    try:
        f(*a)
    except exc:
        return True
    return False


@P.harness(runs=60)
def noisy_circuits(r, i):
    """every experiment is run with each of its errors, with its own shots and strings"""
    exps = []
    for _ in range(r.randint(1, 3)):
        c, base, lab, wrap = framed(r, most=2)
        op = {rand_string(r, c.qubits, identity=False): r.choice([1.0, 0.5]) for _ in range(r.randint(1, 2))}
        exps.append((base, lab, wrap, op, r.randint(1, 99)))
    if any(not [1 for n, o, _ in named(e[1]) if o.type == OpType.CX] for e in exps):
        raise Skip
    log([(e[0].get_commands(), e[3]) for e in exps])
    be = FakeBackend(None)
    out, structure = pec.gen_get_noisy_circuits(be)([[ObservableExperiment(AnsatzCircuit(w, s, SymbolsDict()), ObservableTracker(QubitPauliOperator(op)))
                                                      for _, _, w, op, s in exps]])
    k = 0
    for e, (base, lab, wrap, op, s) in enumerate(exps):
        errors = pec.list_pauli_gates(wrap)
        order = [n for n, o, _ in named(lab) if o.type == OpType.CX]
        for j, err in enumerate(errors):
            x = out[k]
            ensure("place", structure[k] == {"experiment": e, "error": j}, structure[k])
            ensure("shots and strings", x.AnsatzCircuit.Shots == s and x.ObservableTracker.qubit_pauli_operator._dict == op)
            if r.random() < 0.2:
                ensure("the error", same_up_to_phase(run_all(x.AnsatzCircuit.Circuit), run_all(with_pauli(base, order.index(err["opgroup"]), err["op"]))))
            k += 1
    ensure("nothing else", len(out) == len(structure) == k)


@P.harness(runs=40)
def training_set(r, i):
    """training circuits are Clifford, keep the frames of the circuit and give the string a non-zero expectation"""
    np.random.seed(i)
    exps = []
    for _ in range(r.randint(1, 2)):
        c, base, lab, wrap = framed(r)
        op = {rand_string(r, c.qubits, identity=False): 1.0 for _ in range(r.randint(1, 2))}
        exps.append((c, lab, wrap, op, r.randint(1, 99)))
    num = r.randint(1, 3)
    log(num, [(e[0].get_commands(), e[3]) for e in exps])
    keep = [e[2].copy() for e in exps]
    sim = ExactBackend()
    sim.supports_state = True
    task = pec.gen_get_clifford_training_set(sim, num)
    if any(not any("Computing" in n for n, _, _ in named(e[1])) for e in exps):
        ensure("circuits without computing gates are refused", refused(ValueError, task, [wires(exps)]))
        return
    try:
        out, structure = task([wires(exps)])
    except RuntimeError:
        raise Skip  # no training circuit has a non-zero expectation (documented)
    want = [(e, s, k) for e, x in enumerate(exps) for s in range(len(x[3])) for k in range(num)]
    ensure("so many for each string of each experiment", [(d["experiment"], d["qps"], d["training_circuit"]) for d in structure] == want and len(out) == len(want))
    for (e, s, k), x in zip(want, out):
        c, lab, wrap, op, shots = exps[e]
        string = list(op)[s]
        t = x.AnsatzCircuit.Circuit
        ensure("shots", x.AnsatzCircuit.Shots == shots)
        ensure("measures the string", x.ObservableTracker.qubit_pauli_operator._dict == {string: 1})
        ensure("Clifford", CliffordCircuitPredicate().verify(t))
        ensure("non-zero expectation", abs(abs(expval(t, string)) - 1) < 1e-6)
        fr = lambda z: [(n, q) for n, o, q in sorted(named(z), key=lambda y: str(y[0])) if n and ("Frame" in n or "Pauli" in n)]
        ensure("frames and their surroundings are kept", fr(t) == fr(wrap), (fr(t), fr(wrap)))
        ensure("permutations are kept", t.implicit_qubit_permutation() == wrap.implicit_qubit_permutation())
    ensure("circuits given are kept", [e[2] for e in exps] == keep)


def wires(exps):
    return [ObservableExperiment(AnsatzCircuit(w, s, SymbolsDict()), ObservableTracker(QubitPauliOperator(op))) for _, _, w, op, s in exps]


@P.harness(runs=100)
def learning(r, i):
    """quasi-probabilities are the least-squares solution over the training circuits of the string"""
    strings = [QubitPauliString({Qubit(k): Pauli.Z}) for k in range(3)]
    n, k = r.randint(1, 6), r.randint(1, 4)
    results, want = [], []
    for _ in range(r.randint(1, 3)):
        row, wrow = [], []
        for s in strings[:r.randint(1, 3)]:
            a = np.array([[r.uniform(-1, 1) for _ in range(k)] for _ in range(n)])
            b = np.array([r.choice([-1.0, 1.0]) for _ in range(n)])
            row.append([[(QubitPauliOperator({s: x}), QubitPauliOperator({s: y})) for x in l] for l, y in zip(a, b)])
            wrow.append(np.linalg.lstsq(a, b, rcond=None)[0])
        results.append(row)
        want.append(wrow)
    log(results)
    out = pec.learn_quasi_probs_task_gen(n)([results])[0]
    ensure("for every string of every experiment", [len(x) for x in out] == [len(x) for x in want])
    for x, y in zip(out, want):
        for p, q in zip(x, y):
            ensure("least squares", np.allclose(p, q, atol=1e-5 * (1 + np.abs(q).max() ** 2)), (p, q))


class Device(ExactBackend):
    def __init__(self, lam, how):
        super().__init__(lambda c: lam)
        self.how = how
        self.backend_info = SimpleNamespace(gate_set={OpType.CX, OpType.TK1})

    def default_compilation_pass(self, optimisation_level=2):
        base = AutoRebase({OpType.CX, OpType.TK1})
        if self.how == "rename":
            return SequencePass([RenameQubitsPass({Qubit(k): Node("q", (k + 1) % 3) for k in range(3)}), base])
        return base


@P.harness(runs=8)
def pipeline(r, i):
    """noise damping every circuit alike is removed, experiment by experiment"""
    np.random.seed(i)
    lam, exps = r.choice([0.1, 0.3]), []
    for _ in range(r.randint(1, 2)):
        c = rand_pec_circuit(r, n=2, most=1)
        for k in range(2):
            c.Rx(r.uniform(0.1, 0.9), k).Rz(r.uniform(0.1, 0.9), k)
        op = {rand_string(r, c.qubits, identity=False): r.choice([1.0, -0.5, 2.0]) for _ in range(r.randint(1, 2))}
        exps.append((c, op, r.randint(1, 99)))
    be, sim = Device(lam, r.choice(["plain", "rename"])), ExactBackend()
    sim.supports_state = True
    log(lam, be.how, [(c.get_commands(), op) for c, op, _ in exps])
    given = [c.copy() for c, _, _ in exps]
    for num in (16, 120):  # few training circuits need not determine the quasi-probabilities
        mitex = pec.gen_PEC_learning_based_MitEx(be, sim, num_cliff=num)
        out = mitex.run([ObservableExperiment(AnsatzCircuit(c, s, SymbolsDict()), ObservableTracker(QubitPauliOperator(dict(op)))) for c, op, s in exps])
        ensure("an operator per experiment", len(out) == len(exps))
        bad = []
        for (c, op, s), o in zip(exps, out):
            ensure("its strings", set(o._dict) == set(op), (o, op))
            bad += [(k, o[k], v * expval(c, k)) for k, v in op.items() if abs(complex(o[k]) - v * expval(c, k)) > 1e-3]
        if not bad:
            break
    ensure("noise removed", not bad, bad)
    ensure("experiments are kept", given == [c for c, _, _ in exps])
    other = Device(lam, "plain")
    other.backend_info = SimpleNamespace(gate_set={OpType.ZZPhase, OpType.TK1})
    ensure("devices without Clifford frames are refused", refused(RuntimeError, pec.gen_PEC_learning_based_MitEx, other, sim))


def clifford_key(u, n):
    """images of the generators, with signs: names the Clifford up to phase"""
    import itertools

    ps = [np.array(1)]
    for _ in range(n):
        ps = [np.kron(a, b) for a in ps for b in PM.values()]
    gens = [g for g in range(1, 4 ** n) if bin_weight(g, n)]
    key = []
    for g in gens:
        v = u @ ps[g] @ u.conj().T
        t = [np.real(np.trace(v @ p)) / 2 ** n for p in ps]
        k = int(np.argmax(np.abs(t)))
        key.append((k, round(t[k])))
    return tuple(key)


def bin_weight(g, n):
    d = []
    for _ in range(n):
        d.append(g % 4)
        g //= 4
    return sum(x != 0 for x in d) == 1 and all(x in (0, 1, 3) for x in d)


@P.harness(runs=2)
def uniform_cliffords(r, i):
    """random Clifford circuits are uniform over the Clifford group"""
    n, runs, size = [(1, 1500, 24), (2, 4000, 720)][i]
    np.random.seed(7 + i)
    got = {}
    for _ in range(runs):
        c = gen.random_clifford_circ(n)
        key = clifford_key(unitary(c), n)
        if n == 2:  # up to Paulis
            key = tuple(k for k, _ in key)
        got[key] = got.get(key, 0) + 1
    chi = sum((v - runs / size) ** 2 for v in got.values()) / (runs / size) + (size - len(got)) * runs / size
    log(n, len(got), chi)
    ensure("uniform", len(got) <= size and chi < size + 8 * (2 * size) ** 0.5, (len(got), chi))
    a, b = gen.random_clifford_circ(3, seed=i), gen.random_clifford_circ(3, seed=i)
    ensure("seeded draws repeat", a == b)
    np.random.seed(3)
    x = np.random.rand()
    np.random.seed(3)
    ensure("state of the generator is kept without a seed", (gen.random_clifford_circ(1), np.random.seed(3))[1] is None and np.random.rand() == x)


@P.harness(runs=60)
def canonical(r, i):
    """Hadamard-free circuits are Paulis after phases after CZ after CX gates"""
    n = r.randint(1, 4)
    pl = [r.randint(0, 3) for _ in range(n)]
    gamma = np.array([[r.randint(0, 1) for _ in range(n)] for _ in range(n)])
    gamma = np.triu(gamma) + np.triu(gamma, 1).T
    delta = np.tril(np.array([[r.randint(0, 1) for _ in range(n)] for _ in range(n)]), -1) + np.identity(n)
    log(pl, gamma, delta)
    got = gen.clifford_canonical_F(pl, gamma, delta)
    d = Circuit(n)
    for t in range(n):
        for c in range(t):
            if delta[t][c]:
                d.CX(c, t)
    for b in range(n):
        for a in range(b):
            if gamma[a][b]:
                d.CZ(a, b)
        if gamma[b][b]:
            d.S(b)
    for q, p in enumerate(pl):
        if p:
            getattr(d, "XYZ"[p - 1])(q)
    ensure("as described", same_up_to_phase(unitary(got), unitary(d)))
