"""SPAM correction: the calibrated noise is what is removed, for every result and from the right bits."""
from contracts.common import *  # noqa
from contracts.fakes import *  # noqa
from contracts.sim import *  # noqa
from pytket import Circuit, Qubit, Bit, OpType
from pytket.circuit import Node
from qermit import CircuitShots, MitRes
from qermit.spam import CorrectionMethod, gen_FullyCorrelated_SPAM_MitRes, gen_UnCorrelated_SPAM_MitRes
from types import SimpleNamespace
from qermit.spam.full_spam_correction import (
    gen_full_tomography_spam_correction_task, gen_full_tomography_spam_characterisation_task, gen_get_bit_maps_task, get_mid_circuit_measure_map)
from qermit.spam import full_transition_tomography as ftt

S1, S2 = "qermit/spam/full_spam_correction.py:", "qermit/spam/full_transition_tomography.py:"
LEVEL = "exploration"
P = Prop("C06", [S1 + "gen_full_tomography_spam_correction_task", S1 + "gen_full_tomography_spam_characterisation_task"])
ResultT = Opaque("Result", lambda k: counts_result({(0,): 1 + k, (1,): 3}, [Bit(0)]))
MapsT = Opaque("BitMaps", lambda k: ({Qubit(k % 2): Bit(0)}, {}) if k % 3 else ({}, {Bit(0): Qubit(k % 2)}))
InfoT = Opaque("StateInfo", lambda k: ("info", k))
CharT = Opaque("Characterisation", lambda k: ftt.FullCorrelatedNoiseCharacterisation(
    [[Qubit(0)], [Qubit(1)]], {Qubit(0): (0, 0), Qubit(1): (1, 0)}, [np.array([[1 - 0.01 * (k + 1), 0.02], [0.01 * (k + 1), 0.98]])] * 2))
callee(ftt.correct_transition_noise, "Result")
NAME = "FullCorrelatedSpamCorrection"


@P.contract(results=ListOf(ResultT), maps=ListOf(MapsT), char=CharT)
def each_result_its_bits(results, maps, char):
    t = gen_full_tomography_spam_correction_task(CorrectionMethod.Invert)
    t.characterisation = {NAME: char}
    try:
        out = t.run(results, maps, True)[0]
        ok = True
    except ValueError:
        ok = False
    ensure("refused exactly when a map is missing", ok == (len(results) == len(maps)))
    if ok:
        ensure("a result per result", len(out) == len(results))
        ensure("corrected with its own bits and the stored noise", all(
            o == ftt.correct_transition_noise(x, m, char, CorrectionMethod.Invert) for o, x, m in zip(out, results, maps)))


@P.contract(results=ListOf(ResultT), maps=ListOf(MapsT))
def never_uncharacterised(results, maps):
    t = gen_full_tomography_spam_correction_task(CorrectionMethod.Invert)
    try:
        t.run(results, maps, True)
        ok = False
    except ValueError:
        ok = True
    ensure("correction without characterisation is refused", ok)


@P.contract(results=ListOf(ResultT), infos=ListOf(InfoT))
def characterisation_mismatch(results, infos):
    require(len(results) != len(infos))
    t = gen_full_tomography_spam_characterisation_task([[Qubit(0)]])
    try:
        t.run(results, infos)
        ok = False
    except ValueError:
        ok = True
    ensure("a calibration state without its result is refused", ok and NAME not in t.characterisation)


# ---- bounded: calibration and correction on a simulated noisy device
P.functions += [S2 + f for f in ("get_full_transition_tomography_circuits", "calculate_correlation_matrices", "correct_transition_noise", "reduce_matrix",
                                 "reduce_matrices", "get_single_matrix", "CorrectionMethod.Invert", "CorrectionMethod.Bayesian", "_compute_dot",
                                 "binary_to_int", "int_to_binary")]
P.functions += [S1 + "gen_full_tomography_spam_circuits_task", S1 + "gen_get_bit_maps_task", S1 + "get_mid_circuit_measure_map",
                "qermit/spam/spam_mitres.py:gen_FullyCorrelated_SPAM_MitRes", "qermit/spam/spam_mitres.py:gen_UnCorrelated_SPAM_MitRes"]

N = 1 << 26


def rand_confusion(r, n, product):
    """column-stochastic 2^n matrix, entries multiples of 1/64; diagonally dominant"""
    if product and n > 1:
        return np.kron(rand_confusion(r, 1, True), rand_confusion(r, n - 1, True))
    d = 2 ** n
    m = np.zeros((d, d))
    for c in range(d):
        left = 64
        for _ in range(r.randint(0, 3)):
            x = r.randint(0, 6)
            m[r.randrange(d), c] += x
            left -= x
        m[c, c] += left
    return m / 64


def bits_of(k, n):
    return [(k >> (n - 1 - j)) & 1 for j in range(n)]


def index(bits):
    return int("".join(map(str, bits)), 2) if bits else 0


class Noise:
    """readout noise per subset; qubits of a subset that are not read count as prepared and read in 0 (the documented assumption)"""

    def __init__(self, subsets, mats):
        self.subsets, self.mats = subsets, mats

    def matrix(self, k, qubits):
        sub, m = self.subsets[k], self.mats[k]
        where = [sub.index(q) for q in qubits]

        def full(x):
            b = [0] * len(sub)
            for j, v in zip(where, bits_of(x, len(qubits))):
                b[j] = v
            return index(b)

        d = 2 ** len(qubits)
        out = np.array([[m[full(a), full(c)] for c in range(d)] for a in range(d)])
        return out / out.sum(axis=0)

    def apply(self, dist, bits, reads):
        """dist over `bits`; reads: groups of (qubit, bit) measured together"""
        for group in reads:
            for k, sub in enumerate(self.subsets):
                part = [(q, b) for q, b in group if q in sub]
                if not part:
                    continue
                m = self.matrix(k, [q for q, _ in part])
                pos = [bits.index(b) for _, b in part]
                out = {}
                for key, p in dist.items():
                    c = index([key[x] for x in pos])
                    for a in range(len(m)):
                        if m[a, c]:
                            kk = list(key)
                            for x, v in zip(pos, bits_of(a, len(pos))):
                                kk[x] = v
                            out[tuple(kk)] = out.get(tuple(kk), 0) + p * m[a, c]
                dist = out
        return dist


def classical(circ, qubits):
    """final bits of a circuit of X, CX and measurements anywhere"""
    st, out, reads = {q: 0 for q in qubits}, {}, []
    for cmd in circ.get_commands():
        t = cmd.op.type
        if t == OpType.X:
            st[cmd.qubits[0]] ^= 1
        elif t == OpType.CX:
            st[cmd.qubits[1]] ^= st[cmd.qubits[0]]
        elif t == OpType.Measure:
            out[cmd.bits[0]] = st[cmd.qubits[0]]
            reads.append((cmd.qubits[0], cmd.bits[0]))
    return {tuple(out.get(b, 0) for b in circ.bits): 1.0}, reads


def rand_setting(r, product=False, names=None):
    n = r.randint(1, 5)
    mk = r.choice([lambda k: Node("q", k), lambda k: Node("node", k), lambda k: Qubit(k), lambda k: Qubit("a", 2 * k)])
    nodes = [mk(k) for k in range(n)]
    order = nodes[:]
    if r.random() < 0.7:
        r.shuffle(order)
    subsets = []
    while order:
        k = min(len(order), r.choice([1, 1, 2, 3]))
        subsets.append(order[:k])
        order = order[k:]
    return nodes, subsets, Noise(subsets, [rand_confusion(r, len(s), product or r.random() < 0.3) for s in subsets])


def rand_spam_circuit(r, nodes, k):
    """-> circuit, ideal distribution over its bits, groups of readouts"""
    used = r.sample(nodes, r.randint(1, len(nodes)))
    c = rand_clifford(r, used)
    c.name = f"c{k}"
    pick = r.sample(used, r.randint(1, len(used)))
    mkb = r.choice([lambda j: Bit(j), lambda j: Bit("c", 5 - j)])
    bs = [mkb(j) for j in range(len(pick))]
    r.shuffle(bs)
    for q, b in zip(pick, bs):
        c.add_bit(b)
        c.Measure(q, b)
    return c, distribution(c), [list(zip(pick, bs))]


def rand_mid_circuit(r, nodes, k):
    used = r.sample(nodes, r.randint(1, min(3, len(nodes))))
    c = Circuit(name=f"c{k}")
    for q in used:
        c.add_qubit(q)
    nb = 0
    for _ in range(r.randint(1, 8)):
        x = r.random()
        if x < 0.45:
            c.X(r.choice(used))
        elif x < 0.65 and len(used) > 1:
            c.CX(*r.sample(used, 2))
        elif nb < 4:
            c.add_bit(Bit(nb))
            c.Measure(r.choice(used), Bit(nb))
            nb += 1
    if nb == 0:
        c.add_bit(Bit(0))
        c.Measure(used[0], Bit(0))
    d, reads = classical(c, used)
    return c, d, [[x] for x in reads]


@P.harness(runs=120)
def pipeline(r, i):
    """after calibration on a noisy device, corrected results are the noiseless ones, circuit by circuit, also on a second run"""
    product = r.random() < 0.4
    nodes, subsets, noise = rand_setting(r, product)
    method = CorrectionMethod.Invert
    given = {}

    def answer(c, s, k):
        if c.name in given and c == given[c.name][0]:
            d, reads = given[c.name][1:]
        else:
            d, reads = distribution(c), [[(q, b) for b, q in measures(c).items()]]
        return counts_result(exact_counts(noise.apply(dict(d), list(c.bits), reads), N), c.bits)

    be = FakeBackend(answer, compile=lambda c, level: c.copy())
    cal = r.randint(1, 100)
    if all(len(s) == 1 for s in subsets):
        be.backend_info = SimpleNamespace(architecture=SimpleNamespace(nodes=[s[0] for s in subsets]))
        mr = gen_UnCorrelated_SPAM_MitRes(be, cal, correction_method=method)
        for info in (None, SimpleNamespace(architecture=None), SimpleNamespace(architecture=SimpleNamespace(nodes=[]))):
            be.backend_info, keep = info, be.backend_info
            try:
                gen_UnCorrelated_SPAM_MitRes(be, cal)
                ok = False
            except ValueError:
                ok = True
            be.backend_info = keep
            ensure("a device without nodes is refused", ok)
    else:
        mr = gen_FullyCorrelated_SPAM_MitRes(be, cal, [list(s) for s in subsets], correction_method=method)
    log(subsets, [m.tolist() for m in noise.mats])
    for again in range(2):
        exps = []
        for k in range(r.randint(1, 3)):
            c, d, reads = (rand_mid_circuit if product and r.random() < 0.5 else rand_spam_circuit)(r, nodes, k)
            given[c.name] = (c.copy(), d, reads)
            exps.append((CircuitShots(c, r.randint(1, 50)), d))
        log([(e[0].Circuit.get_commands(), e[1]) for e in exps])
        be.jobs.clear()
        out = mr.run([e for e, _ in exps])
        runs = [(c.name, s) for c, s in be.jobs if c.name in given and c == given[c.name][0]]
        ensure("each circuit is run with its shots", runs == [(e.Circuit.name, e.Shots) for e, _ in exps], (runs, be.jobs))
        ensure("calibration shots", all(s == cal for c, s in be.jobs if not (c.name in given and c == given[c.name][0])))
        ensure("a result per circuit", len(out) == len(exps))
        for o, (e, d) in zip(out, exps):
            got = counts_of(o, e.Circuit.bits)
            tol = 2e-4 * N / 1024
            want = {k: p * N for k, p in d.items()}
            ensure("noise removed", all(abs(got.get(k, 0) - want.get(k, 0)) <= tol for k in set(got) | set(want)),
                   (e.Circuit.get_commands(), {k: v / N for k, v in got.items()}, d))


@P.harness(runs=60)
def characterisation(r, i):
    """calibration circuits prepare and read every basis state of every subset; the matrices found are those of the device"""
    nodes, subsets, noise = rand_setting(r)
    be = FakeBackend(lambda c, s, k: counts_result(exact_counts(noise.apply(distribution(c), list(c.bits), [[(q, b) for b, q in measures(c).items()]]), N), c.bits))
    log(subsets, [m.tolist() for m in noise.mats])
    circs, infos = ftt.get_full_transition_tomography_circuits(Circuit(len(nodes)), be, [list(s) for s in subsets])
    ensure("as many circuits as states of the largest subset", len(circs) == len(infos) == 2 ** max(map(len, subsets)))
    res = be.get_results(be.process_circuits(circs, [1] * len(circs)))
    char = ftt.calculate_correlation_matrices(res, infos, [list(s) for s in subsets])
    ensure("subsets as given", char.CorrelatedNodes == [list(s) for s in subsets])
    for sub, m in zip(subsets, noise.mats):
        ks = {char.NodeToIntDict[q][0] for q in sub}
        ensure("one matrix per subset", len(ks) == 1 and [char.NodeToIntDict[q][1] for q in sub] == list(range(len(sub))))
        ensure("probability of reading a when c was prepared", np.allclose(char.CharacterisationMatrices[ks.pop()], m, atol=1e-6), (char.CharacterisationMatrices, m))


@P.harness(runs=150)
def methods(r, i):
    """inversion multiplies by the inverse of the product of the matrices and clips; the Bayesian method explains the data"""
    dims = [r.choice([1, 1, 2]) for _ in range(r.randint(1, 3))]
    mats = [rand_confusion(r, d, False) for d in dims]
    full = mats[0]
    for m in mats[1:]:
        full = np.kron(full, m)
    n = full.shape[0]
    p = np.array([r.choice([0, 0, 1, 2, 5]) for _ in range(n)], float)
    if not p.sum():
        p[r.randrange(n)] = 1
    p /= p.sum()
    v = full @ p if r.random() < 0.5 else np.array([r.random() for _ in range(n)])
    v /= v.sum()
    log([m.tolist() for m in mats], v.tolist())
    keep, keepm = v.copy(), [m.copy() for m in mats]
    x = np.linalg.solve(full, v)
    want = np.where(x < 0, 0, x)
    got = CorrectionMethod.Invert(mats, v.copy())
    ensure("inverse, clipped and normalised", np.allclose(got, want / want.sum(), atol=1e-8), (got, want / want.sum()))
    v2 = full @ p
    b = CorrectionMethod.Bayesian(mats, v2)
    ensure("probabilities", (b > -1e-12).all() and abs(b.sum() - 1) < 1e-6)
    ensure("explains the data", np.abs(full @ b - v2).max() < 0.02, (b, p))
    ensure("inputs kept", np.array_equal(v, keep) and all(np.array_equal(x, y) for x, y in zip(mats, keepm)))


@P.harness(runs=100)
def bit_maps(r, i):
    """every bit of a circuit is mapped to the qubit measured into it, final and mid-circuit alike"""
    nodes = rand_qubits(r, r.randint(1, 4))
    wires = [CircuitShots((rand_mid_circuit if r.random() < 0.5 else rand_spam_circuit)(r, nodes, k)[0], r.randint(1, 9)) for k in range(r.randint(1, 3))]
    log([w.Circuit.get_commands() for w in wires])
    before = [w.Circuit.copy() for w in wires]
    same, maps = gen_get_bit_maps_task().run(wires)
    ensure("circuits as given", same == wires and [w.Circuit for w in same] == before)
    ensure("a map per circuit", len(maps) == len(wires))
    for w, (final, mid) in zip(wires, maps):
        want = {cmd.bits[0]: cmd.qubits[0] for cmd in w.Circuit.get_commands() if cmd.op.type == OpType.Measure}
        got = {b: q for q, b in final.items()}
        ensure("no bit is both", not set(got) & set(mid))
        ensure("bit to qubit", {**got, **mid} == want, (got, mid, want))


@P.harness(runs=60)
def reduction(r, i):
    """dropping unread qubits keeps the entries in which they are 0, and single matrices keep the qubit asked for"""
    n = r.randint(1, 3)
    m = rand_confusion(r, n, False) + 0.01
    gone = r.sample(range(n), r.randint(0, n))
    stay = [q for q in range(n) if q not in gone]
    log(m.tolist(), gone)
    keep = m.copy()

    def at(x):
        b = [0] * n
        for q, v in zip(stay, bits_of(x, len(stay))):
            b[q] = v
        return index(b)

    got = ftt.reduce_matrices([(0, q) for q in gone], [m])
    if not stay:
        ensure("nothing left", got == [])
    else:
        want = np.array([[m[at(a), at(c)] for c in range(2 ** len(stay))] for a in range(2 ** len(stay))])
        ensure("entries with the dropped qubits in 0", len(got) == 1 and np.allclose(got[0], want / want.sum(axis=0)), (got, want))
    q = r.randrange(n)
    one = 1 << (n - 1 - q)
    ensure("matrix of one qubit", np.allclose(ftt.get_single_matrix((0, q), [m]), [[m[0, 0], m[0, one]], [m[one, 0], m[one, one]]]))
    ensure("matrix kept", np.array_equal(m, keep))


@P.harness(runs=60)
def wiring(r, i):
    """circuits are compiled as asked for and run by the MitRes given for them; calibration happens once, by the MitRes given for it"""
    n = r.randint(1, 3)
    nodes = [Node("q", k) for k in range(n)]
    subsets = [nodes[:1], nodes[1:]] if n > 1 and r.random() < 0.5 else [nodes]
    level = r.choice([None, 0, 1, 2])
    asked = []

    def compile(c, l):
        asked.append(l)
        c = c.copy()
        c.name = (c.name or "") + "!"
        return c

    def device(kind):
        return FakeBackend(lambda c, s, k: counts_result(exact_counts(distribution(c)), c.bits), compile=compile)

    main, cal, cor = device("main"), device("cal"), device("cor")
    kw = {} if level is None else dict(optimisation_level=level)
    own_cal, own_cor = r.random() < 0.5, r.random() < 0.5
    if own_cal:
        kw["calibration_mitres"] = MitRes(cal, _label="MyCal")
    if own_cor:
        kw["correction_mitres"] = MitRes(cor, _label="MyCor")
    shots = r.randint(1, 9)
    mr = gen_FullyCorrelated_SPAM_MitRes(main, shots, [list(s) for s in subsets], **kw)
    log(subsets, level, own_cal, own_cor)
    want_cal = want_run = 0
    for turn in range(3):
        asked.clear()
        exps = [CircuitShots(rand_spam_circuit(r, nodes, k)[0], r.randint(10, 50)) for k in range(r.randint(1, 3))]
        for d in (main, cal, cor):
            d.jobs.clear()
        out = mr.run(exps)
        ensure("a result per circuit", len(out) == len(exps))
        runs = [(c.name, s) for c, s in (cor if own_cor else main).jobs if c.name.startswith("c")]
        ensure("compiled circuits run by the MitRes given for them", runs == [(w.Circuit.name + "!", w.Shots) for w in exps], runs)
        ensure("compiled at the level asked for", asked[-len(exps):] == [1 if level is None else level] * len(exps) or asked[:len(exps)] == [1 if level is None else level] * len(exps), asked)
        cals = [(c.name, s) for c, s in (cal if own_cal else main).jobs if not c.name.startswith("c")]
        ensure("calibrated once, with the shots asked for", [s for _, s in cals] == [shots] * (2 ** max(map(len, subsets)) if turn == 0 else 0), cals)
        ensure("nothing else is run", len(main.jobs) + len(cal.jobs) + len(cor.jobs) == len(runs) + len(cals))
        for o, w in zip(out, exps):
            ensure("noiseless results unchanged", {k: v / (1 << 20) for k, v in counts_of(o, w.Circuit.bits).items()} == {k: v for k, v in distribution(w.Circuit).items() if v > 1e-9} or
                   all(abs(counts_of(o, w.Circuit.bits).get(k, 0) / (1 << 20) - v) < 1e-4 for k, v in distribution(w.Circuit).items()))
    for name, label in (("calibration_mitres", "MyCal"), ("correction_mitres", "MyCor")):
        if name in kw:
            ensure("the MitRes given are unchanged", kw[name]._label == label and len(kw[name].tasks) == len(MitRes(main).tasks))
