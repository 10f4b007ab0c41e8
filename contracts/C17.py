"""Simulated noisy devices: every shot through its own compilation, errors where the noise model puts them, results under their handles."""
from contracts.common import *  # noqa
from contracts.fakes import *  # noqa
from contracts.sim import *  # noqa
import math
from collections import Counter
import os
import random
import signal
import subprocess
import sys
from typing import Any, NamedTuple
from pytket import OpType
from pytket.circuit import Node
from pytket.passes import CustomPass
from pytket.pauli import Pauli
from qermit.noise_model import ErrorDistribution, MockQuantinuumBackend, NoiseModel, PauliErrorTranspile, TranspilerBackend
from qermit.noise_model.noisy_aer_backend import NoisyAerBackend

D = "qermit/noise_model/"
TB, MQ = D + "transpiler_backend.py:TranspilerBackend.", D + "mock_quantinuum_backend.py:MockQuantinuumBackend."
P = Prop("C17", [TB + f for f in ("__init__", "get_counts", "_gen_batches", "_gen_transpiled_circuit", "get_result", "get_results", "process_circuits")]
         + [MQ + f for f in ("process_circuits", "get_result")])


class Logged:
    """a circuit recording what was done to it"""

    def __init__(self, k, log):
        self.k, self.log = k, log

    def copy(self):
        return Logged(self.k, self.log)


class LogPass:
    """a compiler pass leaving its mark"""

    def __init__(self, mark):
        self.mark = mark

    def apply(self, circ):
        circ.log = circ.log * 3 + self.mark


class ShotResult(NamedTuple):
    """result of one shot: the circuit it was taken from"""
    k: int
    log: int
    shots: int

    def get_counts(self, cbits=None):
        return Counter({(self.k, self.log, self.shots, cbits): 1})


class ShotBackend:
    """noiseless device: remembers nothing, answers at once"""

    def rebase_pass(self):
        return LogPass(2)

    def run_circuits(self, circuits, n_shots=None):
        return [ShotResult(c.k, c.log, n_shots) for c in circuits]


@P.contract(k=Int(0), log0=Int(0), n=Int(0, 400), batch=Int(1, 60), cbits=Int(0))
def shots_one_by_one(k, log0, n, batch, cbits):
    b = TranspilerBackend(LogPass(1), max_batch_size=batch)
    b.backend = ShotBackend()
    given = Logged(k, log0)
    out = b.get_counts(given, n, cbits=cbits)
    mark = (log0 * 3 + 1) * 3 + 2
    ensure("every shot is one shot of the circuit given, compiled once by the pass and then rebased, read in the bits asked for", out[(k, mark, 1, cbits)] == n)
    ensure("no other shots", sum(out.values()) == n)
    ensure("circuit given unchanged", given.log == log0)


class Handle(NamedTuple):
    k: int


@P.contract(d=DictOf(NTOf(Handle, Int()), Int()), hs=ListOf(NTOf(Handle, Int())))
def own_results(d, hs):
    require(all(h in d for h in hs))
    b = TranspilerBackend(LogPass(1), result_dict=d)
    ensure("the result stored for each handle, in order", b.get_results(hs) == [d[h] for h in hs])
    ensure("one at a time", all(b.get_result(h) == d[h] for h in hs))


def run(circuit, n):
    return ("handle", circuit, n)


callee(run, "Handle")


class Transpiled(TranspilerBackend):
    def process_circuit(self, circuit, n_shots, **kwargs):
        return run(circuit, n_shots)


class Mock(MockQuantinuumBackend):
    """without its device"""

    def __init__(self):
        self.asked = []

    def process_circuit(self, circuit, n_shots=None, valid_check=True, **kwargs):
        return run(circuit, n_shots)


@P.contract(ws=ListOf(Shots(1)), n=Int(1))
def circuits_in_order(ws, n):
    want = [run(w.Circuit, w.Shots) for w in ws]
    circs, shots = [w.Circuit for w in ws], [w.Shots for w in ws]
    ensure("each circuit with its own shots, in order", Transpiled(LogPass(1)).process_circuits(circs, shots) == want)
    ensure("each circuit with its own shots, in order (mock)", Mock().process_circuits(circs, shots) == want)
    ensure("one number of shots for all (mock)", Mock().process_circuits(circs, n) == [run(c, n) for c in circs])


# ---- bounded
P.functions += [TB + f for f in ("process_circuit", "run_circuit", "rebase_pass", "default_compilation_pass", "_get_batch_counts")]
P.functions += [MQ + "process_circuit", D + "pauli_error_transpile.py:PauliErrorTranspile"]
P.functions += [D + "noisy_aer_backend.py:NoisyAerBackend." + f for f in ("__init__", "depolarizing_noise_model")]
PAULIS = [Pauli.I, Pauli.X, Pauli.Y, Pauli.Z]
GATE = {Pauli.X: OpType.X, Pauli.Y: OpType.Y, Pauli.Z: OpType.Z}


def rand_bits(r, n, device=False):
    k = r.random() * (0.7 if device else 1)
    if k < 0.4:
        return [Bit(j) for j in range(n)]
    if k < 0.7:
        return [Bit("b", 0)] + [Bit(j) for j in range(n - 1)]
    return [Bit("c", 2 * j + 1) for j in range(n)]


def classical(r, device=False):
    """circuit with one possible outcome, measured in any order and, unless for a device, perhaps not into every bit, and that outcome"""
    n = r.randint(1, 3)
    qs = rand_qubits(r, n) if not device else r.choice([[Qubit(j) for j in range(n)], [Qubit("a", 0)] + [Qubit(j) for j in range(n - 1)]])
    bits = rand_bits(r, n + (0 if device else r.randint(0, 1)), device)
    c = Circuit()
    for q in r.sample(qs, n):
        c.add_qubit(q)
    for b in r.sample(bits, len(bits)):
        c.add_bit(b)
    val = {q: 0 for q in qs}
    for _ in range(r.randint(0, 5)):
        if n > 1 and r.random() < 0.5:
            a, b = r.sample(qs, 2)
            c.CX(a, b)
            val[b] ^= val[a]
        else:
            q = r.choice(qs)
            c.X(q)
            val[q] ^= 1
    want = {b: 0 for b in bits}
    for q, b in zip(r.sample(qs, n), r.sample(bits, n)):
        c.Measure(q, b)
        want[b] = val[q]
    return c, want


class Recorder:
    """noiseless stand-in for the simulator behind a backend: keeps what it ran"""

    def __init__(self):
        self.batches = []

    def rebase_pass(self):
        def mark(c):
            c.add_phase(0.25)
            return c
        return CustomPass(mark)

    def run_circuits(self, circuits, n_shots=None, **kw):
        circuits = list(circuits)
        assert n_shots == 1
        self.batches.append(circuits)
        return [FakeBackend(lambda c, s, k: one(c)).run_circuit(c, 1) for c in circuits]


def one(c):
    (key, p), = distribution(c, c.bits).items()
    return shots_result([key], c.bits)


@P.harness(runs=60)
def instances(r, i):
    c, want = classical(r)
    q = r.choice(c.qubits)
    batch, n = r.randint(1, 7), r.randint(1, 15)
    if i % 3 == 0:
        n = batch * r.randint(1, 3)
    made = []

    def noisy(circ):
        # the k-th instance has an X in front when the k-th coin says so
        made.append(r.random() < 0.4)
        new = Circuit()
        for x in circ.qubits:
            new.add_qubit(x)
        for x in circ.bits:
            new.add_bit(x)
        if made[-1]:
            new.X(q)
        new.append(circ)
        return new

    b, other = TranspilerBackend(CustomPass(noisy), max_batch_size=batch), TranspilerBackend(CustomPass(lambda c: c))
    b.backend = rec = Recorder()
    before = c.copy()
    way = i % 4
    if way == 0:
        res = b.run_circuit(c, n)
    elif way == 1:
        res = b.get_result(b.process_circuit(c, n))
    elif way == 2:
        h, = b.process_circuits([c], [n])
        res, = b.get_results([h])
    else:
        res = None
        some = r.sample(c.bits, r.randint(1, len(c.bits)))
        cnt = b.get_counts(c, n, cbits=some)
    ensure("circuit given unchanged", c == before)
    sizes = [len(x) for x in rec.batches]
    ensure("as many instances as shots", len(made) == n and sum(sizes) == n, (n, batch, sizes))
    ensure("no batch beyond the largest allowed, none empty", all(0 < s <= batch for s in sizes), (n, batch, sizes))
    ran = [x for y in rec.batches for x in y]
    ensure("each instance is its own compilation of the circuit given", all(
        x.n_gates_of_type(OpType.X) == c.n_gates_of_type(OpType.X) + m for x, m in zip(ran, made)))
    ensure("rebased after the pass", all(abs(float(x.phase) - float(c.phase) - 0.25) < 1e-9 for x in ran))
    if res is not None:
        expected = Counter(next(iter(distribution(x, c.bits))) for x in ran)
        ensure("every shot counted, in every bit's own place", counts_of(res, c.bits) == dict(expected), (c, expected))
        ensure("bits of the circuit", sorted(res.c_bits) == sorted(c.bits))
    else:
        expected = Counter(next(iter(distribution(x, some))) for x in ran)
        ensure("bits asked for, in that order", dict(cnt) == dict(expected), (c, some, expected, cnt))
    ensure("results are not shared between backends", not other.result_dict)


def odd(circ):
    """deterministic noise: an X in front of every measurement of a qubit with an odd index"""
    new = Circuit()
    for x in circ.qubits:
        new.add_qubit(x)
    for x in circ.bits:
        new.add_bit(x)
    for cmd in circ.get_commands():
        if cmd.op.type == OpType.Measure and cmd.args[0].index[0] % 2:
            new.X(cmd.args[0])
        new.add_gate(cmd.op, cmd.args)
    return new


@P.harness(runs=20)
def aer(r, i):
    b = TranspilerBackend(CustomPass(odd), max_batch_size=r.choice([1, 3, 1000]))
    cs = [classical(r, True) for _ in range(r.randint(1, 3))]
    ns = [r.randint(1, 5) for _ in cs]
    kept = [c.copy() for c, _ in cs]
    hs = b.process_circuits([c for c, _ in cs], ns)
    order = r.sample(range(len(hs)), len(hs))
    res = b.get_results([hs[k] for k in order])
    for k, x in zip(order, res):
        c, want = cs[k]
        flip = {bit: int(q.index[0] % 2) for bit, q in measures(c).items()}
        ensure("each circuit's own noisy shots, in its own bits", counts_of(x, c.bits) == {tuple(want[y] ^ flip.get(y, 0) for y in c.bits): ns[k]},
               (c, ns[k], counts_of(x, c.bits)))
    ensure("circuits given unchanged", all(c == d for (c, _), d in zip(cs, kept)))
    for p in (b.rebase_pass(), b.default_compilation_pass(), b.default_compilation_pass(optimisation_level=2)):
        c = cs[0][0].copy()
        p.apply(c)
        ensure("compiling for the backend leaves circuits alone", c == cs[0][0])


def in_fresh_process(code, seconds):
    """what a python program prints, or None if it does not finish"""
    pre = f"import sys, warnings; warnings.filterwarnings('ignore'); sys.path[:0] = {sys.path!r}\nfrom contracts.C17 import *\n"
    p = subprocess.Popen([sys.executable, "-B", "-c", pre + code], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, start_new_session=True)
    try:
        return p.communicate(timeout=seconds)[0]
    except subprocess.TimeoutExpired:
        return None
    finally:
        try:
            os.killpg(p.pid, signal.SIGKILL)
        except ProcessLookupError:
            pass
        p.wait()


TWO_CORES = """
r = random.Random({i})
for _ in range(3):
    c, want = classical(r, True)
    n, batch = r.randint(1, 8), r.randint(1, 4)
    flip = {{bit: int(q.index[0] % 2) for bit, q in measures(c).items()}}
    some = r.sample(c.bits, r.randint(1, len(c.bits)))
    for cores in {cores}:
        b = TranspilerBackend(CustomPass(odd), max_batch_size=batch, n_cores=cores)
        assert counts_of(b.run_circuit(c, n), c.bits) == {{tuple(want[y] ^ flip.get(y, 0) for y in c.bits): n}}, (c, n, batch)
        assert dict(b.get_counts(c, n, some)) == {{tuple(want[y] ^ flip.get(y, 0) for y in some): n}}, (c, n, batch)
        assert sum(b.get_counts(c, n).values()) == n
print("finished")
"""


@P.harness(runs=3)
def two_cores(r, i):
    out = in_fresh_process(TWO_CORES.format(i=i, cores=[2]), 100)
    ensure("shots on several cores finish", out is not None)
    ensure("shots on several cores are counted as on one", out.endswith("finished\n"), out)


@P.harness(runs=1)
def cores_after_one(r, i):
    out = in_fresh_process(TWO_CORES.format(i=i, cores=[1, 2]), 25)
    ensure("shots on several cores finish after shots on one core in the same process", out is not None, "TranspilerBackend(n_cores=1) then n_cores=2")
    ensure("shots on several cores are counted as on one", out.endswith("finished\n"), out)


class Queue(ErrorDistribution):
    """returns the errors given, one after another"""

    def __init__(self, errors):
        self.errors, self.drawn = list(errors), []

    def sample(self):
        self.drawn.append(self.errors[len(self.drawn) % len(self.errors)])
        return self.drawn[-1]


@P.harness(runs=150)
def errors_in_place(r, i):
    n = r.randint(1, 3)
    qs = rand_qubits(r, n)
    c = rand_circuit(r, qs)
    bits = rand_bits(r, n)
    if r.random() < 0.5:
        c.add_barrier(r.sample(qs, r.randint(1, n)))
    if r.random() < 0.5:
        c.add_phase(0.3)
    if n > 1 and r.random() < 0.4:
        c.SWAP(*qs[:2])
        c.replace_SWAPs()
    if r.random() < 0.3:
        c.Rz(0.4, qs[0], opgroup="mine")
    measured = r.random() < 0.5
    for b in bits:
        c.add_bit(b)
    if measured:
        for q, b in zip(r.sample(qs, n), bits):
            c.Measure(q, b)
    kinds = [OpType.CX, OpType.ZZPhase, OpType.H, OpType.Rz, OpType.X, OpType.Rx]
    noise = {t: Queue([r.choice([None, tuple(r.choice(PAULIS) for _ in range(2 if t in (OpType.CX, OpType.ZZPhase) else 1))]) for _ in range(5)])
             for t in r.sample(kinds, r.randint(1, 4))}
    before, out = c.copy(), c.copy()
    PauliErrorTranspile(NoiseModel(noise)).apply(out)
    ensure("circuit the pass was not applied to is unchanged", c == before)
    want, taken = Circuit(), {t: 0 for t in noise}
    for q in c.qubits:
        want.add_qubit(q)
    extra = 0
    for cmd in c.get_commands():
        if cmd.op.type not in (OpType.Barrier, OpType.Measure):
            want.add_gate(cmd.op, cmd.args)
        if cmd.op.type in noise:
            e = noise[cmd.op.type].errors[taken[cmd.op.type] % 5]
            taken[cmd.op.type] += 1
            for q, p in zip(cmd.args, e or ()):
                if p != Pauli.I:
                    want.add_gate(GATE[p], [q])
                    extra += 1
    ensure("one error drawn for each gate with noise", all(len(noise[t].drawn) == taken[t] for t in noise))
    ensure("qubits and bits kept", out.qubits == c.qubits and out.bits == c.bits)
    ensure("errors, and nothing else, are added", out.n_gates == c.n_gates + extra)
    # labels are not on commands' ops: count them in the serialised circuit
    labels = Counter(x.get("opgroup") for x in out.to_dict()["commands"])
    ensure("errors are labelled noisy", labels["noisy"] == extra, labels)
    a = run_state(out, c.qubits, permute=False) if not measured else None
    if a is not None:
        ensure("errors act right after their gates", same_up_to_phase(a, run_state(want, c.qubits)), (c, noise))
        ensure("phase kept", np.allclose(a, run_state(want, c.qubits) * np.exp(1j * np.pi * float(c.phase)), atol=1e-7))
    else:
        m = measures(c)
        for b, q in m.items():
            want.add_bit(b, False)
            want.Measure(q, b)
        ensure("same measurements", measures(out) == m)
        d, e = distribution(out, bits), distribution(want, bits)
        ensure("outcomes are those of the circuit with its errors", all(abs(d.get(k, 0) - e.get(k, 0)) < 1e-7 for k in set(d) | set(e)))
    ensure("implicit permutation kept", out.implicit_qubit_permutation() == c.implicit_qubit_permutation())


@P.harness(runs=6)
def not_pauli(r, i):
    c = Circuit(1).X(0)
    try:
        PauliErrorTranspile(NoiseModel({OpType.X: Queue([("A",)])})).apply(c)
        got = None
    except Exception as e:
        got = e
    ensure("errors that are not Paulis are refused", got is not None)


@P.harness(runs=30)
def noisy_aer(r, i):
    c, want = classical(r, True)
    b = NoisyAerBackend(4, 0, 0, i % 2)
    cc = b.get_compiled_circuit(c, optimisation_level=0)
    m = measures(c)
    got = counts_of(b.run_circuit(cc, 20, seed=i), c.bits)
    ensure("without gate noise exact, every bit read flipped at rate one", got == {tuple(want[y] ^ (i % 2 if y in m else 0) for y in c.bits): 20}, (c, got))


def flips(b, c, shots, seed):
    """number of shots in which each bit reads 1"""
    c.rename_units({q: Node("node", q.index[0]) for q in c.qubits})
    a = b.run_circuit(c, shots, seed=seed).get_shots(cbits=c.bits)
    return [int(x) for x in np.asarray(a).sum(axis=0)]


SHOTS = 8000


def near(got, p, shots=SHOTS):
    return abs(got - p * shots) <= 6 * math.sqrt(p * (1 - p) * shots) + 1e-9


@P.harness(runs=36)
def rates(r, i):
    n = 3
    p1, p2, ro = [(0.4, 0, 0), (0, 0.4, 0), (0, 0, 0.3), (0.3, 0.2, 0.1)][i % 4]
    b = NoisyAerBackend(n, p1, p2, ro)

    def seen(p):
        return p * (1 - ro) + (1 - p) * ro

    q = i % n
    one = Circuit(n, n)
    kind = (i // 3) % 3
    if kind == 0:
        one.Rz(0.3, q)  # half of the depolarised shots read 1
        p = p1 / 2
    elif kind == 1:
        one.Rz(0.3, q).Rz(0.2, q)
        p = (1 - (1 - p1) ** 2) / 2
    else:
        one.H(q).H(q)
        p = (1 - (1 - p1) ** 2) / 2
    for k in range(n):
        one.Measure(k, k)
    got = flips(b, one, SHOTS, 11 + i)
    ensure("one-qubit gates depolarise their qubit at the rate given", near(got[q], seen(p)), (p1, p2, ro, q, kind, got))
    ensure("and no other", all(near(got[k], seen(0)) for k in range(n) if k != q), (p1, p2, ro, q, got))
    pairs = [(a, d) for a in range(n) for d in range(n) if a != d]
    a, d = pairs[i % 6]
    two = Circuit(n, n).CX(a, d)
    for k in range(n):
        two.Measure(k, k)
    got = flips(b, two, SHOTS, 31 + i)
    ensure("two-qubit gates depolarise both their qubits at the rate given", near(got[a], seen(p2 / 2)) and near(got[d], seen(p2 / 2)), (p2, ro, a, d, got))
    ensure("and no other", all(near(got[k], seen(0)) for k in range(n) if k not in (a, d)), (p2, ro, a, d, got))


@P.harness(runs=12)
def mock(r, i):
    b = MockQuantinuumBackend()
    nb = b.noisy_backend
    if i % 4 == 0:
        # the mock device is noisy, but little
        c, want = classical(r, True)
        cc = b.get_compiled_circuit(c, optimisation_level=r.randint(0, 2))
        got = counts_of(b.run_circuit(cc, 400, seed=3), c.bits)
        ensure("little noise", got.get(tuple(want[y] for y in c.bits), 0) > 320, (c, got))
    b.noisy_backend = NoisyAerBackend(b.backend_info.n_nodes, 0, 0, 0)
    cs = [classical(r, True) for _ in range(r.randint(1, 3))]
    comp = b.get_compiled_circuits([c for c, _ in cs], optimisation_level=r.randint(0, 2))
    kept = [c.copy() for c in comp]
    ns = r.randint(1, 9) if i % 2 else [r.randint(1, 9) for _ in cs]
    hs = b.process_circuits(comp, n_shots=ns)
    order = r.sample(range(len(hs)), len(hs))
    for k in order:
        c, want = cs[k]
        x = b.get_result(hs[k], timeout=30)
        n = ns if isinstance(ns, int) else ns[k]
        ensure("each circuit's own result, under its handle, in its own bits", counts_of(x, c.bits) == {tuple(want[y] for y in c.bits): n}, (c, counts_of(x, c.bits), n))
    rs = b.get_results(hs, timeout=30)
    ensure("all results in order", [counts_of(x, c.bits) for x, (c, _) in zip(rs, cs)] == [counts_of(b.get_result(h), c.bits) for h, (c, _) in zip(hs, cs)])
    ensure("circuits given unchanged", all(c == d for c, d in zip(comp, kept)))
    bad = Circuit(11, 1)
    bad.X(10).Measure(10, 0)
    try:
        b.process_circuit(bad, 1)
        got = None
    except Exception as e:
        got = e
    ensure("circuits the device cannot run are refused", got is not None)
