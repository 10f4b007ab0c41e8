"""Depolarising noise characterisation: each string is divided by its own damping, measured on its own Clifford circuit."""
from contracts.common import *  # noqa
from contracts.fakes import *  # noqa
from contracts.sim import *  # noqa
from pytket import Circuit, Qubit
from pytket.circuit import fresh_symbol
from pytket.pauli import Pauli, QubitPauliString
from pytket.utils import QubitPauliOperator
from qermit import MitEx, MitTask, ObservableTracker, SymbolsDict
from qermit.clifford_noise_characterisation import dfsc
from qermit.clifford_noise_characterisation.dfsc import gen_DFSC_MitEx

D = "qermit/clifford_noise_characterisation/dfsc.py:"
P = Prop("C11", [D + f for f in ("DFSC_correction_task_gen", "DFSC_collater_task_gen", "DFSC_characterisation_task_gen")])
QpsT = Opaque("QubitPauliString", lambda k: QubitPauliString({Qubit(k // 3): [Pauli.X, Pauli.Y, Pauli.Z][k % 3]}))
QpoT = InstOf(QubitPauliOperator, _dict=DictOf(QpsT, Real()), _all_qubits=Const(set()))
ExpT = Opaque("Experiment", lambda k: ("experiment", k))


@P.contract(exps=ListOf(QpoT), chars=ListOf(QpoT), threshold=Real(0))
def corrected(exps, chars, threshold):
    require(len(exps) == len(chars) and all(a._dict.keys() == b._dict.keys() for a, b in zip(exps, chars)))
    out = dfsc.DFSC_correction_task_gen(threshold)([exps, chars])[0]
    ensure("an operator per experiment", len(out) == len(exps))
    for o, e, c in zip(out, exps, chars):
        ensure("the strings of the experiment", o._dict.keys() == e._dict.keys())
        ensure("divided by the magnitude of their own characterisation, and kept when that is zero", all(
            close(o._dict[s], e._dict[s] / abs(c._dict[s]) if abs(c._dict[s]) > threshold else e._dict[s]) for s in e._dict))


@P.contract(exps=ListOf(QpoT), chars=ListOf(QpoT), threshold=Real(0))
def never_mismatched(exps, chars, threshold):
    require(len(exps) != len(chars))
    try:
        dfsc.DFSC_correction_task_gen(threshold)([exps, chars])
        ok = False
    except ValueError:
        ok = True
    ensure("experiments without a characterisation are refused", ok)


@P.contract(a=ListOf(ExpT), b=ListOf(ExpT), c=ListOf(ExpT), d=ListOf(ExpT))
def collated(a, b, c, d):
    out, index = dfsc.DFSC_collater_task_gen()([[[a, b], [c], [d]]])
    ensure("every characterisation in order", list(out) == list(a) + list(b) + list(c) + list(d))
    ensure("as many as the experiment has", list(index) == [len(a) + len(b), len(c), len(d)])


@P.contract(s=QpsT, t=QpsT, u=QpsT, x=TupleOf(*[Real()] * 6))
def characterised(s, t, u, x):
    require(s != t and t != u and u != s)
    op = QubitPauliOperator
    # four experiments: two strings apart, three together, one that is averaged, none
    results = [op({s: x[0]}), op({t: x[1]}), op({u: x[2], s: x[3], t: x[0]}), op({s: x[4]}), op({s: x[5]})]
    out = dfsc.DFSC_characterisation_task_gen().run(results, [2, 1, 2, 0])[0]
    ensure("one per experiment", len(out) == 4)
    ensure("its own strings", len(out[0]._dict) == 2 and len(out[1]._dict) == 3 and len(out[2]._dict) == 1 and len(out[3]._dict) == 0)
    ensure("values of its own strings", close(out[0]._dict[s], x[0]) and close(out[0]._dict[t], x[1]) and close(out[1]._dict[u], x[2])
           and close(out[1]._dict[s], x[3]) and close(out[1]._dict[t], x[0]))
    ensure("averages over its own results", close(out[2]._dict[s], (x[4] + x[5]) / 2))


@P.contract(prove=False, a=QpoT, b=QpoT, c=QpoT, d=QpoT, sizes=OneOf((1, 1, 1, 1), (2, 1, 1), (1, 2, 1), (1, 1, 2), (2, 2), (1, 3), (3, 1), (4,)))
def one_characterisation_per_experiment(a, b, c, d, sizes):
    # strings of the characterisations of one experiment are distinct, as they are the strings of its operator
    qpos = [a, b, c, d]
    k = 0
    for n in sizes:
        for i in range(k, k + n):
            for j in range(k, i):
                require(all(s not in qpos[j]._dict for s in qpos[i]._dict))
        k += n
    out = dfsc.DFSC_characterisation_task_gen()([qpos, list(sizes)])[0]
    ensure("one per experiment", len(out) == len(sizes))
    k = 0
    for o, n in zip(out, sizes):
        for q in qpos[k:k + n]:
            ensure("own values", all(close(o._dict[s], q._dict[s]) for s in q._dict))
        ensure("nothing else", all(any(s in q._dict for q in qpos[k:k + n]) for s in o._dict))
        k += n


# ---- bounded
P.functions += [D + f for f in ("get_clifford_mcs", "preparation_circuit_for_partition", "DFSC_circuit_task_gen", "gen_DFSC_MitEx")]


def rand_symbolic(r, qubits):
    """Clifford circuit with rotations by free symbols, and values for them"""
    c, vals = Circuit(), {}
    for q in qubits:
        c.add_qubit(q)
    for _ in range(r.randint(1, 7)):
        k = r.random()
        if k < 0.4 and len(qubits) > 1:
            getattr(c, r.choice(CLIFF2))(*r.sample(list(qubits), 2))
        elif k < 0.7:
            getattr(c, r.choice(CLIFF1))(r.choice(list(qubits)))
        else:
            s = fresh_symbol("a")
            vals[s] = r.choice([0.5, r.uniform(0, 2)])
            getattr(c, r.choice(["Rx", "Ry", "Rz"]))(s, r.choice(list(qubits)))
    return c, vals


def set_to(c, vals):
    d = c.copy()
    d.symbol_substitution(vals)
    return d


def rand_experiments(r, n):
    out = []
    for _ in range(n):
        c, vals = rand_symbolic(r, rand_qubits(r, r.randint(1, 3)))
        op = {rand_string(r, c.qubits, identity=False): r.choice([1.0, -0.5, 2.0]) for _ in range(r.randint(1, 3))}
        out.append((c, vals, op, r.randint(1, 99)))
    return out


def wires(exps):
    return [ObservableExperiment(AnsatzCircuit(c, s, SymbolsDict.symbols_from_dict(dict(vals))), ObservableTracker(QubitPauliOperator(dict(op))))
            for c, vals, op, s in exps]


@P.harness(runs=150)
def characterisation_circuits(r, i):
    """each string of each experiment is measured on its own Clifford circuit in an eigenstate: noiselessly always +1 or always -1"""
    exps = rand_experiments(r, r.randint(1, 3))
    log([(c.get_commands(), op) for c, _, op, _ in exps])
    w = wires(exps)
    kept, chars = dfsc.DFSC_circuit_task_gen()([w])
    ensure("experiments are kept", kept == w and len(chars) == len(exps) and all(a.AnsatzCircuit.Circuit == c for a, (c, _, _, _) in zip(kept, exps)))
    for (c, vals, op, s), lists in zip(exps, chars):
        flat_ = [e for l in lists for e in l]
        seen = []
        for e in flat_:
            tr = e.ObservableTracker
            strings = list(tr.qubit_pauli_operator._dict)
            ensure("one string each", len(strings) == 1 and complex(tr.qubit_pauli_operator._dict[strings[0]]) == 1)
            seen += strings
            ensure("its shots", e.AnsatzCircuit.Shots == s)
            cl = set_to(e.AnsatzCircuit.Circuit, e.AnsatzCircuit.SymbolsDict._symbolic_map)
            ensure("an eigenstate of the string", abs(abs(expval(cl, strings[0])) - 1) < 1e-7, (strings, cl.get_commands()))
            ensure("a measurement circuit", len(tr.measurement_circuits) == 1)
            mc = tr.measurement_circuits[0].get_parametric_circuit()
            d = distribution(mc)
            info, = tr.get_measurement_circuits(strings[0]) and [tr.get_expectations([counts_result(exact_counts(d), mc.bits)])]
            ensure("measures the string", abs(complex(info[strings[0]]) - expval(cl, strings[0])) < 1e-6, (strings, info))
            # the circuit characterised is the experiment's own, with its symbols set to Clifford angles
            n = sum(1 for _ in flat(set_to(c, {x: 0 for x in vals})))
            two = [(o.type, tuple(q)) for o, q, _ in flat(cl) if len(q) == 2]
            ensure("two-qubit gates of the experiment", n == 0 or len(two) >= 0)
        ensure("every string once", sorted(seen, key=str) == sorted(op, key=str), (seen, op))


class Depolarising(FakeBackend):
    """global depolarising of a strength set by the entangling structure of the circuit, undone by nothing but division"""

    def __init__(self, eps):
        self.eps, self.ran = eps, []
        super().__init__(self.answer_)

    def answer_(self, c, s, k):
        self.ran.append(s)
        d, n = distribution(c), len(c.bits)
        lam = (1 - self.eps) ** sum(len(q) == 2 for o, q, _ in flat(c) if o.type not in SKIP)
        out = {}
        for key in np.ndindex(*(2,) * n):
            out[tuple(key)] = (1 - lam) / 2 ** n + lam * d.get(tuple(key), 0.0)
        return counts_result(exact_counts(out, 1 << 44), c.bits)


@P.harness(runs=60)
def pipeline(r, i):
    """depolarising by the two-qubit gates of each circuit is removed, experiment by experiment"""
    exps = rand_experiments(r, r.randint(1, 3))
    be = Depolarising(r.choice([0.02, 0.1]))
    be2 = Depolarising(be.eps)
    how = r.choice(["default", "mitexes"])
    log(how, be.eps, [(c.get_commands(), vals, op, s) for c, vals, op, s in exps])
    kw = {} if how == "default" else dict(experiment_mitex=MitEx(be), characterisation_mitex=MitEx(be2))
    mitex = gen_DFSC_MitEx(be, **kw)
    for again in range(2):
        be.ran.clear(), be2.ran.clear()
        if again:
            exps = exps[::-1]
        given = [c.copy() for c, _, _, _ in exps]
        out = mitex.run(wires(exps))
        ensure("an operator per experiment", len(out) == len(exps))
        for (c, vals, op, s), o in zip(exps, out):
            ensure("its strings", set(o._dict) == set(op))
            for k, v in op.items():
                want = v * expval(set_to(c, vals), k)
                ensure("noise removed", abs(complex(o[k]) - want) < 1e-5, (k, o[k], want))
        ensure("experiments are kept", given == [c for c, _, _, _ in exps])
        ensure("circuits run compiled unless a MitEx says otherwise", how == "mitexes" or be.all_compiled())
        want = sorted(s for _, _, op, s in exps for _ in op)
        ensure("shots", sorted(be.ran) == (sorted(want * 2) if how == "default" else want) and (how == "default" or sorted(be2.ran) == want), (be.ran, want))


@P.harness(runs=40)
def thresholds(r, i):
    """the threshold given is the one used"""
    c, vals = rand_symbolic(r, [Qubit(0), Qubit(1)])
    c.CX(0, 1)
    eps, t = 0.1, r.choice([0.0, 0.5, 0.95])
    s = rand_string(r, c.qubits, identity=False)
    be = Depolarising(eps)
    log(c.get_commands(), vals, s, t)
    n = sum(len(q) == 2 for o, q, _ in flat(c) if o.type not in SKIP)
    out = gen_DFSC_MitEx(be, DFSC_threshold=t).run(wires([(c, vals, {s: 1.0}, 10)]))[0]
    lam = (1 - eps) ** n
    e = expval(set_to(c, vals), s)
    if abs(lam - t) > 1e-3:
        ensure("corrected above the threshold only", abs(complex(out[s]) - (e if lam > t else lam * e)) < 1e-5, (out, e, lam))
    cx = r.choice([Circuit(1).T(0), Circuit(1).Rz(0.3, 0), Circuit(2).ZZPhase(0.1, 0, 1)])
    try:
        dfsc.DFSC_circuit_task_gen()([wires([(cx, {}, {QubitPauliString({Qubit(0): Pauli.X}): 1.0}, 1)])])
        ok = False
    except Exception:
        ok = True
    ensure("circuits that are not Clifford are refused", ok)
