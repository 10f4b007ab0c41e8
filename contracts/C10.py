"""Clifford data regression: training circuits, their pairing with exact values, and the fit applied to each string."""
from contracts.common import *  # noqa
from pydv.values import z3
from contracts.fakes import *  # noqa
from contracts.sim import *  # noqa
import warnings
from pytket import Circuit, Qubit, OpType
from pytket.circuit import fresh_symbol
from pytket.pauli import Pauli, QubitPauliString
from pytket.utils import QubitPauliOperator
from qermit import MitEx, ObservableTracker, SymbolsDict
from qermit.clifford_noise_characterisation import ccl, cdr_post
from qermit.clifford_noise_characterisation.ccl import LikelihoodFunction, gen_CDR_MitEx
from qermit.clifford_noise_characterisation.cdr_post import _PolyCDRCorrect

L, C = "qermit/clifford_noise_characterisation/ccl.py:", "qermit/clifford_noise_characterisation/cdr_post.py:"
P = Prop("C10", [L + "ccl_result_batching_task_gen", L + "ccl_likelihood_filtering_task_gen", C + "_PolyCDRCorrect", C + "cdr_correction_task_gen"])
QpsT = Opaque("QubitPauliString", lambda k: QubitPauliString({Qubit(k // 3): [Pauli.X, Pauli.Y, Pauli.Z][k % 3]}))
QpoT = InstOf(QubitPauliOperator, _dict=DictOf(QpsT, Real()), _all_qubits=Const(set()))
AnyT = Opaque("Operator", lambda k: ("operator", k))


@P.contract(exact=ListOf(AnyT), noisy=ListOf(AnyT), n=OneOf(1, 2, 3), m=Int(0, 4))
def batches(exact, noisy, n, m):
    require(len(exact) == len(noisy) == n * m)
    out = ccl.ccl_result_batching_task_gen(n)([exact, noisy])[0]
    ensure("a batch per experiment", len(out) == m)
    ensure("of its own circuits, each paired with its own exact value", all(
        len(out[j]) == n and all(out[j][k][0] == noisy[j * n + k] and out[j][k][1] == exact[j * n + k] for k in range(n)) for j in range(m)))


@P.contract(exact=ListOf(AnyT), noisy=ListOf(AnyT), n=Int(1))
def unpaired(exact, noisy, n):
    require(len(exact) != len(noisy))
    try:
        ccl.ccl_result_batching_task_gen(n)([exact, noisy])
        ok = False
    except RuntimeError:
        ok = True
    ensure("results that do not pair up are refused", ok)


@P.contract(states=ListOf(AnyT), a=QpoT, b=QpoT)
def everything_likely(states, a, b):
    out = ccl.ccl_likelihood_filtering_task_gen(LikelihoodFunction.none)([states])[0]
    ensure("nothing is dropped", list(out) == list(states))
    out = ccl.ccl_likelihood_filtering_task_gen(lambda x, y: 2)([[[(a, b), (b, a)], [], [(b, b)]]])[0]
    ensure("likely results are kept in place", out == [[(a, b), (b, a)], [], [(b, b)]])
    out = ccl.ccl_likelihood_filtering_task_gen(lambda x, y: 0)([[[(a, b), (b, a)], [(b, b)]]])[0]
    ensure("unlikely results are dropped", out == [[], []])


@P.contract(x=Real(), p=TupleOf(Real(), Real(), Real(), Real()), deg=OneOf(0, 1, 2, 3))
def polynomial(x, p, deg):
    if deg == 0:
        deg = 0
    elif deg == 1:
        deg = 1
    elif deg == 2:
        deg = 2
    else:
        deg = 3
    want = [p[0], p[0] * x + p[1], p[0] * x * x + p[1] * x + p[2], p[0] * x * x * x + p[1] * x * x + p[2] * x + p[3]][deg]
    ensure("highest power first", close(_PolyCDRCorrect(deg, [p[0], p[1], p[2], p[3]][:deg + 1]).correct(x), want))
    try:
        _PolyCDRCorrect(deg, [p[0], p[1], p[2], p[3], 1.0][:deg + 2])
        ok = False
    except ValueError:
        ok = True
    ensure("as many coefficients as the degree needs", ok)


class Remembering:
    """a model whose corrections are a free function of what it was calibrated with last"""

    def __init__(self):
        self.noisy, self.exact = [], []

    def calibrate(self, noisy_exp, exact_exp):
        self.noisy, self.exact = list(noisy_exp), list(exact_exp)

    def correct(self, noisy_expectation):
        return remembered(self.noisy, self.exact, noisy_expectation)


def remembered(noisy, exact, x):
    return x + sum((k + 1) * n * e for k, (n, e) in enumerate(zip(noisy, exact)))


callee(remembered, z3.RealSort())
Pair = TupleOf(Real(), Real())


def corrected(calibrations, operators, model):
    task, cor = cdr_post.cdr_calibration_task_gen(model), cdr_post.cdr_correction_task_gen()
    task.run(calibrations)
    cor.characterisation = task.characterisation
    return cor.run(True, operators)[0]


@P.contract(s=QpsT, t=QpsT, p0=Pair, q0=Pair, r0=Pair, one=ListOf(TupleOf(Pair, Pair)), two=ListOf(Pair), x=TupleOf(Real(), Real(), Real()))
def calibrated(s, t, p0, q0, r0, one, two, x):
    require(s != t)
    one, two = [(p0, q0)] + list(one), [r0] + list(two)
    # two experiments, of two strings and of one, with any number of training circuits
    first = [(QubitPauliOperator({s: p[0], t: q[0]}), QubitPauliOperator({t: q[1], s: p[1]})) for p, q in one]
    second = [(QubitPauliOperator({s: p[0]}), QubitPauliOperator({s: p[1]})) for p in two]
    out = corrected([first, second], [QubitPauliOperator({t: x[1], s: x[0]}), QubitPauliOperator({s: x[2]})], Remembering())
    ps, qs = [p for p, q in one], [q for p, q in one]
    ensure("an operator per experiment", len(out) == 2 and len(out[0]._dict) == 2 and len(out[1]._dict) == 1)
    ensure("the model of the string, calibrated with its own pairs", close(out[0]._dict[s], remembered([p[0] for p in ps], [p[1] for p in ps], x[0])))
    ensure("the model of the other string", close(out[0]._dict[t], remembered([q[0] for q in qs], [q[1] for q in qs], x[1])))
    ensure("the model of the second experiment", close(out[1]._dict[s], remembered([p[0] for p in two], [p[1] for p in two], x[2])))


class Line:
    """a model through nothing: slope and offset are the values it is calibrated with"""

    def calibrate(self, noisy_exp, exact_exp):
        self.a, self.b = noisy_exp[0], exact_exp[0]

    def correct(self, x):
        return self.a * x + self.b


@P.contract(a=QpoT, b=QpoT, s1=QpsT, s2=QpsT, m=TupleOf(Real(), Real(), Real(), Real(), Real(), Real()))
def corrections(a, b, s1, s2, m):
    require(s1 != s2)
    pair = lambda d: (QubitPauliOperator({s: v[0] for s, v in d.items()}), QubitPauliOperator({s: v[1] for s, v in d.items()}))
    out = corrected([[pair({s1: (m[0], m[1]), s2: (m[2], m[3])})], [pair({s1: (m[4], m[5])})]], [a, b], Line())
    ensure("an operator per experiment", len(out) == 2)
    ensure("the strings of the experiment", out[0]._dict.keys() == a._dict.keys() and out[1]._dict.keys() == b._dict.keys())
    ensure("the model of the experiment and string", all(
        close(out[0]._dict[s], m[0] * a._dict[s] + m[1] if s == s1 else m[2] * a._dict[s] + m[3] if s == s2 else a._dict[s]) for s in a._dict))
    ensure("the model of the second experiment", all(
        close(out[1]._dict[s], m[4] * b._dict[s] + m[5] if s == s1 else b._dict[s]) for s in b._dict))


# ---- bounded
P.functions += [C + "cdr_quality_check_task_gen", C + "cdr_calibration_task_gen", L + "gen_state_circuits", L + "sample_weighted_clifford_angle",
                L + "ccl_state_task_gen", L + "gen_CDR_MitEx"]


def skeleton(c):
    """what each qubit and bit goes through, angles of Rz set apart, barriers dropped"""
    lines, angles = {}, {}
    for cmd in c.get_commands():
        t = cmd.op.type
        if t == OpType.Barrier:
            continue
        for a in cmd.args:
            lines.setdefault(a, []).append((t, tuple(cmd.args)))
        if t == OpType.Rz:
            angles.setdefault(cmd.qubits[0], []).append(float(cmd.op.params[0]))
    return lines, angles


def is_clifford(a):
    return abs(a / 0.5 - round(a / 0.5)) < 1e-9


def rand_cdr_circuit(r, n=None, measured=True):
    n = n or r.randint(1, 3)
    c = Circuit(n)
    for _ in range(r.randint(1, 9)):
        k = r.random()
        if n > 1 and k < 0.3:
            c.CX(*r.sample(range(n), 2))
        elif n > 1 and k < 0.37:
            c.SWAP(*r.sample(range(n), 2))
        elif k < 0.7:
            c.Rz(r.choice([0.25, 0.3, r.randint(0, 7) / 2, 1.7, r.uniform(0.01, 3.9)]), r.randrange(n))
        elif k < 0.8:
            c.Ry(r.uniform(0.01, 1.9), r.randrange(n))
        elif k < 0.85:
            c.add_barrier(r.sample(range(n), r.randint(1, n)))
        else:
            c.H(r.randrange(n))
    if measured and r.random() < 0.5:
        qs = list(range(n))
        r.shuffle(qs)
        for b, q in enumerate(qs[:r.randint(1, n)]):
            c.add_bit(Bit(b), reject_dups=False)
            c.Measure(Qubit(q), Bit(b))
    return c


@P.harness(runs=250)
def training_circuits(r, i):
    """training circuits are the circuit with all but n_non_cliffords of its rotations replaced by Clifford ones"""
    c = rand_cdr_circuit(r)
    n = r.randint(0, 4)
    pairs, total = r.randint(0, n), r.randint(1, 6)
    log(c.get_commands(), n, pairs, total)
    orig = c.copy()
    out = ccl.gen_state_circuits(c, n, pairs, total, **({"seed": i} if r.random() < 0.5 else {}))
    ensure("as many as asked for", len(out) == total)
    # the circuit given is rebased in place: it stays the same circuit, in the gate set of the training circuits
    ensure("circuit rebased without change", same_up_to_phase(run_state(c), run_state(orig)) and distribution(c).keys() == distribution(orig).keys()
           and all(abs(v - distribution(orig)[k]) < 1e-6 for k, v in distribution(c).items()))
    lines, angles = skeleton(c)
    flat_angles = [(q, k, a) for q, l in angles.items() for k, a in enumerate(l)]
    if any(is_clifford(a) and a % 0.5 for _, _, a in flat_angles):
        raise Skip  # Clifford up to rounding: either reading is right
    non = [x for x in flat_angles if not is_clifford(x[2])]
    keep = 0 if len(non) <= 1 else min(n, len(non) - 1)
    for s in out:
        sl, sa = skeleton(s)
        ensure("only angles change", sl == lines and set(s.qubits) == set(c.qubits) and set(s.bits) == set(c.bits), s.get_commands())
        kept = 0
        for q, k, a in flat_angles:
            b = sa[q][k]
            if is_clifford(a):
                ensure("Clifford rotations are kept", abs(a - b) < 1e-12)
            elif abs(a - b) < 1e-12:
                kept += 1
            else:
                ensure("others become Clifford", is_clifford(b), b)
        ensure("number of rotations kept", kept == keep, (kept, keep))
    try:
        ccl.gen_state_circuits(orig.copy(), n, n + 1, total)
        ok = False
    except ValueError:
        ok = True
    ensure("more pairs than rotations kept is refused", ok)


@P.harness(runs=6)
def weighted_angles(r, i):
    """Clifford angles are drawn with weight falling with their distance from the angle replaced"""
    a = r.uniform(-4, 4)
    n = 3000
    got = {}
    for _ in range(n):
        x = ccl.sample_weighted_clifford_angle(a)
        got[x] = got.get(x, 0) + 1
    u = lambda t: np.diag([np.exp(-0.5j * np.pi * t), np.exp(0.5j * np.pi * t)])
    w = {0.5 * k: np.exp(-4 * np.linalg.norm(u(a % 2) - u(0.5 * k)) ** 2) for k in range(4)}
    z = sum(w.values())
    log(a, got)
    ensure("a Clifford angle", set(got) <= set(w))
    ensure("with its weight", all(abs(got.get(k, 0) / n - v / z) < 0.06 for k, v in w.items()), (got, w))
    ensure("seeded draws repeat", ccl.sample_weighted_clifford_angle(a, seed=i) == ccl.sample_weighted_clifford_angle(a, seed=i))


@P.harness(runs=150)
def calibration(r, i):
    """each string of each experiment has the model fitted to its own pairs"""
    deg = r.randint(0, 2)
    exps, want = [], []
    for _ in range(r.randint(1, 3)):
        strings = [rand_string(r, [Qubit(0), Qubit(1)]) for _ in range(r.randint(1, 3))]
        n = r.randint(deg + 1, deg + 5)
        pts = {s: [(r.uniform(-1, 1), r.uniform(-1, 1)) for _ in range(n)] for s in strings}
        order = list(pts)
        pairs = []
        for k in range(n):
            o2 = order[:]
            r.shuffle(o2)
            pairs.append((QubitPauliOperator({s: pts[s][k][0] for s in order}), QubitPauliOperator({s: pts[s][k][1] for s in o2})))
        exps.append(pairs)
        want.append(pts)
    log(deg, want)
    t = cdr_post.cdr_calibration_task_gen(_PolyCDRCorrect(deg))
    t([exps])
    out = [QubitPauliOperator({s: r.uniform(-1, 1) for s in w}) for w in want]
    cor = cdr_post.cdr_correction_task_gen()
    cor.characterisation = dict(t.characterisation)
    keep = [dict(o._dict) for o in out]
    fixed = cor([True, out])[0]
    ensure("an operator per experiment", len(fixed) == len(want))
    for w, o, f in zip(want, keep, fixed):
        ensure("its strings", set(f._dict) == set(w))
        for s, p in w.items():
            x, y = np.array([a for a, _ in p]), np.array([b for _, b in p])
            co = np.linalg.lstsq(np.vander(x, deg + 1), y, rcond=None)[0]
            v = float(np.polyval(co, o[s]))
            ensure("least squares through its own pairs", abs(float(f[s]) - v) < 1e-5 * (1 + np.abs(co).sum()), (s, f[s], v))
    ensure("noisy values are kept", keep == [dict(o._dict) for o in out])
    missing = [(QubitPauliOperator({QubitPauliString({Qubit(0): Pauli.X}): 1.0}), QubitPauliOperator({QubitPauliString({Qubit(1): Pauli.X}): 1.0}))]
    try:
        t([[missing]])
        ok = False
    except ValueError:
        ok = True
    ensure("strings without an exact value are refused", ok)


@P.harness(runs=150)
def quality(r, i):
    """the check only warns, exactly when too many training values are far from the value to correct"""
    tol, frac = r.choice([0.1, 0.3]), r.choice([0.0, 0.25, 0.5, 1.0])
    s = rand_string(r, [Qubit(0), Qubit(1)])
    vals = [r.choice([-1.0, -0.5, 0.0, 0.5, 1.0]) for _ in range(r.randint(1, 3))]
    train = [[r.choice([-1.0, -0.5, 0.05, 0.5, 0.95]) for _ in range(r.randint(1, 5))] for _ in vals]
    log(tol, frac, vals, train)
    noisy = [QubitPauliOperator({s: v}) for v in vals]
    states = [[(QubitPauliOperator({s: x}), QubitPauliOperator({s: 1.0})) for x in t] for t in train]
    nk, sk = [dict(n._dict) for n in noisy], [[(dict(a._dict), dict(b._dict)) for a, b in t] for t in states]
    with warnings.catch_warnings(record=True) as w:
        warnings.simplefilter("always")
        out = cdr_post.cdr_quality_check_task_gen(distance_tolerance=tol, calibration_fraction=frac)([noisy, states])
    far = [sum(abs(x - v) > tol for x in t) for t, v in zip(train, vals)]
    ensure("warned when values are far", (len(w) > 0) == any(f > len(t) * frac for f, t in zip(far, train)), (far, len(w)))
    ensure("inputs unaltered", [dict(n._dict) for n in out[0]] == nk and [[(dict(a._dict), dict(b._dict)) for a, b in t] for t in out[1]] == sk)


class Recorded(_PolyCDRCorrect):
    """keeps the pairs it was trained with"""

    def calibrate(self, noisy, exact):
        self.pairs = (list(noisy), list(exact))
        if max(noisy) - min(noisy) > 1e-9:
            super().calibrate(noisy, exact)
        else:  # nothing to fit a line to
            self.params = [1.0, 0.0]
        SEEN.append((self.pairs, self.params))


SEEN = []


@P.harness(runs=50)
def pipeline(r, i):
    """noise damping the circuit and its training circuits alike is removed, experiment by experiment"""
    SEEN.clear()
    exps = []
    for _ in range(r.randint(1, 2)):
        c = rand_cdr_circuit(r, measured=False)
        sym = {}
        if r.random() < 0.5:
            s = fresh_symbol("a")
            sym[s] = r.uniform(0.1, 1.9)
            c.Rx(s, 0)
        c.Ry(r.uniform(0.1, 0.9), 0).Rz(0.37, 0).H(0)
        op = {rand_string(r, c.qubits, identity=False): r.choice([1.0, -0.5, 2.0])}
        if r.random() < 0.5:
            op[rand_string(r, c.qubits, identity=False)] = 1.0
        exps.append((c, sym, op, r.randint(1, 99)))
    lam0 = r.choice([0.1, 0.25])
    be, sim = ExactBackend(lambda c: lam0), ExactBackend()
    total = r.randint(4, 7)
    own = r.random() < 0.5
    log(lam0, total, own, [(c.get_commands(), sym, op) for c, sym, op, _ in exps])
    kw = {}
    if own:
        d1, d2, d3 = ExactBackend(lambda c: lam0), ExactBackend(lambda c: lam0), ExactBackend()
        kw = dict(experiment_mitex=MitEx(d1), states_device_mitex=MitEx(d2), states_simulator_mitex=MitEx(d3))
    mitex = gen_CDR_MitEx(be, sim, r.randint(1, 2), 1, total, model=Recorded(1), **kw)
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        given = [c.copy() for c, *_ in exps]
        out = mitex.run([ObservableExperiment(AnsatzCircuit(c, s, SymbolsDict.symbols_from_dict(dict(sym))), ObservableTracker(QubitPauliOperator(dict(op))))
                         for c, sym, op, s in exps])
    ensure("an operator per experiment", len(out) == len(exps))
    seen = list(SEEN)
    ensure("a model per string", len(seen) == sum(len(op) for _, _, op, _ in exps))
    for (c, sym, op, s), o in zip(exps, out):
        d = c.copy()
        d.symbol_substitution(sym)
        ensure("its strings", set(o._dict) == set(op))
        mine, seen = seen[:len(op)], seen[len(op):]
        for (xy, _) in mine:
            ensure("a pair per training circuit", len(xy[0]) == len(xy[1]) == total, xy)
            ensure("each noisy value with its own exact value", all(abs(x - (1 - lam0) * y) < 1e-5 for x, y in zip(*xy)), xy)
        for k, v in op.items():
            # only training values that spread determine the line
            if all(max(xy[0]) - min(xy[0]) > 0.05 for xy, _ in mine):
                want = v * expval(d, k)
                ensure("noise removed", abs(complex(o[k]) - want) < 1e-3, (k, o[k], want))
    ensure("experiments are kept", given == [c for c, *_ in exps])
    ensure("circuits run compiled unless a MitEx says otherwise", be.all_compiled() and sim.all_compiled())
    if own:
        n = sum(len(op) for _, _, op, _ in exps)
        ensure("each MitEx runs its own circuits", (len(d1.ran), len(d2.ran), len(d3.ran)) == (n, n * total, n * total) and not be.ran and not sim.ran,
               (len(d1.ran), len(d2.ran), len(d3.ran)))
        ensure("shots of the experiments", all(sorted(s for _, s in x.ran) == sorted(s for _, _, op, s in exps for _ in range(len(op) * m)) for x, m in ((d1, 1), (d2, total), (d3, total))))
