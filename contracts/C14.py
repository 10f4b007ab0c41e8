"""Noise models: what error distributions mean, how they are scaled, mixed, stored, sampled and postselected."""
from contracts.common import *  # noqa
from contracts.fakes import *  # noqa
from contracts.sim import *  # noqa
from collections import Counter
import itertools
import math
from typing import NamedTuple
from pytket import OpType
from pytket.pauli import Pauli, QubitPauliString, QubitPauliTensor
from qermit.noise_model.noise_model import ErrorDistribution, LogicalErrorDistribution, NoiseModel
from qermit.noise_model.qermit_pauli import QermitPauli

N = "qermit/noise_model/noise_model.py:"
P = Prop("C14", [N + "ErrorDistribution." + f for f in ("__init__", "identity_error_rate", "mixture", "order", "reset_rng", "to_dict", "from_dict", "sample")]
         + [N + "LogicalErrorDistribution." + f for f in ("__init__", "distribution", "post_select")]
         + [N + "NoiseModel." + f for f in ("__init__", "scale", "reset_rng", "noisy_gates", "get_error_distribution", "to_dict", "from_dict")])
PauliT = Opaque("Pauli", lambda k: [Pauli.I, Pauli.X, Pauli.Y, Pauli.Z][k % 4])
ErrT = TupleOf(PauliT, PauliT)


class Draw:
    """randomness generator returning a given number"""

    def __init__(self, x):
        self.x = x

    def uniform(self, lo, hi):
        return self.x


@P.contract(d=DictOf(ErrT, Real(0, 1), max=4))
def rates(d):
    require(sum(d.values()) <= 1)
    e = ErrorDistribution(d)
    ensure("nothing happens with the probability left", close(e.identity_error_rate, 1 - sum(d.values())))
    ensure("errors keep their probabilities", all(e.distribution[k] == v for k, v in d.items()) and len(e.distribution) == len(d))


@P.contract(a=ErrT, b=ErrT, c=ErrT, p=Real(0, 1), q=Real(0, 1), s=Real(0, 1), x=Real(0, 1))
def sampled(a, b, c, p, q, s, x):
    require(p + q + s <= 1)
    require(a != b)
    require(b != c)
    require(a != c)
    # errors take up consecutive intervals as long as their probabilities
    out = ErrorDistribution({a: p, b: q, c: s}, rng=Draw(x)).sample()
    ensure("first error", implies(0 < x < p, out == a))
    ensure("second error", implies(p < x < p + q, out == b))
    ensure("third error", implies(p + q < x < p + q + s, out == c))
    ensure("no error otherwise", implies(x > p + q + s, out is None))


@P.contract(d=DictOf(ErrT, Real(0, 1), max=4), x=Real(0, 1))
def sampled_from(d, x):
    require(sum(d.values()) <= 1 and x > 0)
    out = ErrorDistribution(d, rng=Draw(x)).sample()
    ensure("an error of the distribution, or none", out is None or out in d)
    ensure("none only with the probability left", implies(out is None, x > sum(d.values())))


R1 = Real(0, 1)


@P.contract(a=ErrT, b=ErrT, c=ErrT, p=TupleOf(R1, R1), q=TupleOf(R1, R1), s=TupleOf(R1, R1))
def mixed(a, b, c, p, q, s):
    require(a != b and b != c and a != c)
    require(p[0] + p[1] <= 1 and q[0] + q[1] <= 1 and s[0] + s[1] <= 1)
    m = ErrorDistribution.mixture([ErrorDistribution({a: p[0], b: p[1]}), ErrorDistribution({b: q[0], c: q[1]}), ErrorDistribution({a: s[0], c: s[1]})])
    ensure("mean of the probabilities", close(m.distribution[a], (p[0] + s[0]) / 3) and close(m.distribution[b], (p[1] + q[0]) / 3) and close(m.distribution[c], (q[1] + s[1]) / 3))
    ensure("no other error", len(m.distribution) == 3)


class StubDist:
    """stands for an error distribution"""

    def __init__(self, k):
        self.k, self.rng = k, None

    def scale(self, scaling_factor):
        return ("scaled", self.k, scaling_factor)

    def reset_rng(self, rng):
        self.rng = rng


OpT = Opaque("OpType", lambda k: list(OpType.__members__.values())[k])


@P.contract(d=DictOf(OpT, Int()), s=Real(0), g=OpT)
def model(d, s, g):
    m = NoiseModel({op: StubDist(k) for op, k in d.items()})
    ensure("gates with noise", list(m.noisy_gates) == list(d.keys()))
    out = m.scale(scaling_factor=s)
    ensure("every gate's own distribution scaled", out.noise_model == {op: ("scaled", k, s) for op, k in d.items()})
    require(g in d)
    ensure("the distribution of a gate", m.get_error_distribution(optype=g).k == d[g])


def measureable(e, qubits):
    return (e.k + len(qubits)) % 2 == 0


def reduced(e, qubits):
    return e.k // (1 + len(qubits))


callee(measureable, z3.BoolSort())
callee(reduced, z3.IntSort())


class StubError(NamedTuple):
    """stands for a Pauli"""
    k: int

    def is_measureable(self, qubits):
        return measureable(self, qubits)

    def reduce_qubits(self, qubits):
        return StubError(reduced(self, qubits))




@P.contract(d=DictOf(NTOf(StubError, Int(0)), Int(1), max=4), extra=Int(0), qs=ListOf(Opaque("Qubit", Qubit)), k=Int(0))
def postselected(d, extra, qs, k):
    given = LogicalErrorDistribution(d, total=sum(d.values()) + extra)
    out = given.post_select(qubit_list=qs)
    kept = sum(n for e, n in d.items() if not measureable(e, qs))
    ensure("shots left are those without error and those not measured", out.total == extra + kept)
    ensure("the counter given is unchanged", given.total == sum(d.values()) + extra)
    ensure("errors that are not measured, without the qubits measured", out.pauli_error_counter[StubError(k)] == sum(n for e, n in d.items() if not measureable(e, qs) and reduced(e, qs) == k))


# ---- bounded
P.functions += [N + "ErrorDistribution." + f for f in ("to_ptm", "from_ptm", "scale", "__eq__", "n_qubits")] + [N + "NoiseModel.__eq__"]
PAULIS = [Pauli.I, Pauli.X, Pauli.Y, Pauli.Z]


def sign(a, b):
    """+1 when the strings commute, -1 when they do not"""
    return (-1) ** sum(p != q and Pauli.I not in (p, q) for p, q in zip(a, b))


def rand_dist(r, n, strength=0.4, odd=True):
    """random error rates, sometimes with entries that mean nothing: the identity, or (almost) no probability"""
    errs = [e for e in itertools.product(PAULIS, repeat=n) if any(p != Pauli.I for p in e)]
    errs = r.sample(errs, r.randint(1, min(len(errs), 6)))
    w = [r.uniform(0.01, 1) for _ in errs]
    tot = r.uniform(0.05, strength)
    d = {e: tot * x / sum(w) for e, x in zip(errs, w)}
    if odd and r.random() < 0.3:
        extra = r.choice([{(Pauli.I,) * n: 0.05}, {next(e for e in itertools.product(PAULIS[1:], repeat=n) if e not in d): r.choice([0.0, 1e-9])} if len(d) < 3 else {}])
        d = {**d, **extra} if r.random() < 0.5 else {**extra, **d}
    return d


def eigenvalue(d, p):
    return 1 - sum(d.values()) + sum(x * sign(e, p) for e, x in d.items())


@P.harness(runs=200)
def transfer_matrix(r, i):
    """the diagonal holds the factor by which each Pauli is damped, and gives the distribution back"""
    n = r.randint(1, 2)
    d = rand_dist(r, n)
    log(d)
    ptm, index = ErrorDistribution(dict(d)).to_ptm()
    keys = list(itertools.product(PAULIS, repeat=n))
    ensure("an index per Pauli", set(index) == set(keys) and sorted(index.values()) == list(range(4 ** n)))
    ensure("diagonal", np.array_equal(ptm, np.diag(np.diag(ptm))) and ptm.shape == (4 ** n, 4 ** n))
    for p in keys:
        ensure("damping of each Pauli", close(ptm[index[p]][index[p]], eigenvalue(d, p)), (p, ptm[index[p]][index[p]], eigenvalue(d, p)))
    order = list(keys)
    r.shuffle(order)
    other = {p: k for k, p in enumerate(order)}
    diag = np.diag([eigenvalue(d, p) for p in order])
    real = {e: x for e, x in d.items() if x > 1e-6 and any(p != Pauli.I for p in e)}
    for back in (ErrorDistribution.from_ptm(ptm, index), ErrorDistribution.from_ptm(diag, other)):
        ensure("the distribution comes back", set(back.distribution) == set(real) and all(close(back.distribution[e], x, 1e-6) for e, x in real.items()), back.distribution)


@P.harness(runs=200)
def scaled(r, i):
    """scaling raises the damping of every Pauli to the power asked for"""
    n = r.randint(1, 2)
    d = rand_dist(r, n)
    s = r.choice([0, 1, 2, 3, 1.5, 2.5, r.uniform(1, 4)])
    log(d, s)
    e = ErrorDistribution(dict(d))
    keys = list(itertools.product(PAULIS, repeat=n))
    lam = {p: eigenvalue(d, p) ** s for p in keys}
    want = {q: sum(sign(p, q) * lam[p] for p in keys) / 4 ** n for q in keys if any(p != Pauli.I for p in q)}
    if any(x < -1e-7 or 1e-8 < x < 1e-5 for x in want.values()):
        raise Skip
    whole = {OpType.CX: ErrorDistribution(dict(d)), OpType.H: ErrorDistribution({}), OpType.Rz: ErrorDistribution({(Pauli.Z,): 0.1})}
    for out in (e.scale(s), NoiseModel(whole).scale(s).get_error_distribution(OpType.CX)):
        ensure("rates of the scaled channel", set(out.distribution) == {q for q, x in want.items() if x > 1e-6} and all(close(x, want[q], 1e-6) for q, x in out.distribution.items()), (out.distribution, want))
    ensure("no noise stays none", NoiseModel(whole).scale(s).get_error_distribution(OpType.H).distribution == {})
    z = NoiseModel(whole).scale(s).get_error_distribution(OpType.Rz).distribution
    ensure("each gate its own", close(z.get((Pauli.Z,), 0), (1 - 0.8 ** s) / 2, 1e-6))
    ensure("the distribution scaled is unchanged", e.distribution == d and whole[OpType.CX].distribution == d)


@P.harness(runs=150)
def stored(r, i):
    """storing in JSON and reading back keeps everything; equality compares errors and rates"""
    import json

    n = r.randint(1, 3)
    d = rand_dist(r, n, 0.9)
    e = ErrorDistribution(dict(d))
    back = ErrorDistribution.from_dict(json.loads(json.dumps(e.to_dict())))
    ensure("same errors and rates", back.distribution == d and back == e and list(back.distribution) == list(d))
    e.order(reverse=i % 2 == 0)
    vals = list(e.distribution.values())
    ensure("ordered by rate", vals == sorted(d.values(), reverse=i % 2 == 0) and e.distribution == d)
    k = r.choice(list(d))
    up = dict(d)
    up[k] = d[k] + 0.2 if sum(d.values()) + 0.2 <= 1 else max(0, d[k] - 0.2)
    if abs(up[k] - d[k]) > 0.05:
        ensure("different rates differ", ErrorDistribution(up) != e)
    less = {x: v for x, v in d.items() if x != k}
    ensure("different errors differ", ErrorDistribution(less) != e and e != d)
    ops = r.sample([OpType.CX, OpType.H, OpType.ZZMax, OpType.Rz, OpType.CZ], r.randint(1, 4))
    m = NoiseModel({op: ErrorDistribution(rand_dist(r, r.randint(1, 2))) for op in ops})
    got = NoiseModel.from_dict(json.loads(json.dumps(m.to_dict())))
    ensure("a noise model comes back", got == m and list(got.noisy_gates) == ops and all(got.noise_model[op].distribution == m.noise_model[op].distribution for op in ops))
    ensure("noise models differ in one gate", NoiseModel({**m.noise_model, ops[0]: ErrorDistribution({(Pauli.Y,) * 3: 0.5})}) != m and NoiseModel({op: m.noise_model[op] for op in ops[1:]}) != m
           and m != m.noise_model and m != 0)


@P.harness(runs=60)
def refusals(r, i):
    def refused(f):
        try:
            f()
            return False
        except Exception:
            return True

    n = r.randint(1, 2)
    d = rand_dist(r, n, odd=False)
    d[next(iter(d))] += r.uniform(1.0, 2)
    ensure("rates above one", refused(lambda: ErrorDistribution(d)))
    ensure("errors on different numbers of qubits", refused(lambda: ErrorDistribution({(Pauli.X,): 0.1, (Pauli.X, Pauli.Y): 0.1})))
    index = {p: k for k, p in enumerate(itertools.product(PAULIS, repeat=1))}
    m = np.diag([1, 0.9, 0.9, 0.9])
    off = m.copy()
    off[r.randint(0, 1)][r.randint(2, 3)] = 0.1
    for bad in (off, np.diag([1, 0.9]), np.ones((4,)), np.ones((4, 3))):
        ensure("not the transfer matrix of a Pauli channel", refused(lambda: ErrorDistribution.from_ptm(bad, index)))


@P.harness(runs=40)
def frequencies(r, i):
    """samples follow the rates, and repeat for equal seeds"""
    n = r.randint(1, 2)
    d = rand_dist(r, n, 0.9)
    e = ErrorDistribution(dict(d), rng=np.random.default_rng(r.randrange(10 ** 9)))
    runs = 3000
    c = Counter(e.sample() for _ in range(runs))
    ensure("only its own errors", set(c) <= set(d) | {None})
    for k in list(d) + [None]:
        p = max(0.0, d[k] if k is not None else 1 - sum(d.values()))
        ensure("as often as its rate", abs(c[k] / runs - p) < 6 * math.sqrt(p * (1 - p) / runs) + 1e-3, (k, c[k] / runs, p))
    seed = r.randrange(10 ** 9)
    m = NoiseModel({OpType.CX: e, OpType.H: ErrorDistribution(rand_dist(r, 1))})
    seqs = []
    for _ in range(2):
        m.reset_rng(np.random.default_rng(seed))
        seqs.append([m.get_error_distribution(g).sample() for g in (OpType.CX, OpType.H) * 20])
    ensure("equal seeds, equal samples", seqs[0] == seqs[1])


@P.harness(runs=150)
def logical(r, i):
    """probability of each error, and postselection on qubits in which errors show"""
    qs = rand_qubits(r, r.randint(1, 4))
    c, flat_ = Counter(), []
    for _ in range(r.randint(0, 6)):
        s = {q: r.choice(PAULIS) for q in qs}
        k = r.randint(1, 9)
        c[QermitPauli(QubitPauliTensor(string=QubitPauliString(s), coeff=r.choice([1, -1, 1j])))] += k
        flat_.append((s, k))
    extra = r.choice([0, 0, r.randint(1, 20)])
    total = sum(k for _, k in flat_) + extra
    if not total:
        raise Skip
    log(flat_, extra)
    led = LogicalErrorDistribution(c, total=total) if extra else LogicalErrorDistribution(c)

    def expected(items, tot, drop=()):
        out = {}
        for s, k in items:
            t = QubitPauliString({q: p for q, p in s.items() if q not in drop})
            out[t] = out.get(t, 0) + k / tot
        return out

    def same(a, b):
        return set(a) == set(b) and all(close(a[k], b[k]) for k in a)

    ensure("probability of each string", same(led.distribution, expected(flat_, total)), led.distribution)
    sel = r.sample(qs, r.randint(0, len(qs)))
    kept = [(s, k) for s, k in flat_ if all(s[q] in (Pauli.I, Pauli.Z) for q in sel)]
    left = extra + sum(k for _, k in kept)
    out = led.post_select(sel)
    ensure("shots left", out.total == left)
    if left:
        ensure("errors that do not show, without the qubits selected on", same(out.distribution, expected(kept, left, sel)), (sel, out.distribution))
    ensure("the distribution given is unchanged", same(led.distribution, expected(flat_, total)))
