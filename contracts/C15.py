"""Pauli strings pushed through Clifford circuits, and noise propagated to either end of a circuit."""
from contracts.common import *  # noqa
from contracts.fakes import *  # noqa
from contracts.sim import *  # noqa
from collections import Counter
import itertools
from typing import Any, NamedTuple, Tuple
from pytket import OpType
from pytket.circuit import Op
from pytket.pauli import Pauli, QubitPauliString, QubitPauliTensor
from qermit.noise_model import noise_model as nm
from qermit.noise_model.noise_model import Direction, ErrorDistribution, NoiseModel
from qermit.noise_model.qermit_pauli import QermitPauli

N, Q = "qermit/noise_model/noise_model.py:", "qermit/noise_model/qermit_pauli.py:"
LEVEL = "exploration"
P = Prop("C15", [N + "NoiseModel.random_propagate"])


class PauliLog:
    """stands for a Pauli: the operations made on it"""
    _pydv_model = True

    def __init__(self, qpt):
        self.log = []

    def apply_gate(self, op, qubits):
        self.log.append(("gate", op, qubits))

    def pre_apply_pauli(self, pauli, qubit):
        self.log.append(("pre", pauli, qubit))

    def post_apply_pauli(self, pauli, qubit):
        self.log.append(("post", pauli, qubit))


class FakeOp(NamedTuple):
    type: Any
    name: int
    dagger: Any


class FakeCommand(NamedTuple):
    op: Any
    args: Any


class FakeCircuit:
    def __init__(self, commands):
        self.commands, self.qubits = commands, []

    def get_commands(self):
        return list(self.commands)


def model_pauli(ex, a, k):
    return ex.construct(PauliLog, [None], {})


def propagate(model, circuit, direction):
    """random_propagate with Paulis that only record what is done to them"""
    real, nm.QermitPauli = nm.QermitPauli, PauliLog
    try:
        return model.random_propagate(circuit, direction=direction)
    finally:
        nm.QermitPauli = real


MODELS[QermitPauli] = model_pauli
MODELS[propagate] = lambda ex, a, k: ex.call(NoiseModel.random_propagate, [a[0], a[1]], {"direction": a[2]})
OpT = Opaque("OpType", lambda k: list(OpType.__members__.values())[k], cls=OpType)
AnyT = Opaque("Op", lambda k: k)
CmdT = NTOf(FakeCommand, NTOf(FakeOp, OpT, AnyT, AnyT), TupleOf(AnyT, AnyT))


def drawn(k):
    return ("error", k)


callee(drawn, "Drawn")


class StubDist:
    def __init__(self, k):
        self.k = k

    def sample(self):
        return (("first", self.k), ("second", self.k)) if self.k > 0 else None


@P.contract(cmds=ListOf(CmdT), noisy=OpT, k=Int(0, 1))
def forward(cmds, noisy, k):
    out = propagate(NoiseModel({noisy: StubDist(k)}), FakeCircuit(cmds), Direction.forward)
    want = []
    for c in cmds:
        if not (c.op.type == OpType.Measure or c.op.type == OpType.Barrier):
            want.append(("gate", c.op, c.args))
            if c.op.type == noisy and k > 0:
                want.append(("post", ("first", k), c.args[0]))
                want.append(("post", ("second", k), c.args[1]))
    ensure("through every gate, then its error", out.log == want)


@P.contract(cmds=ListOf(CmdT), noisy=OpT, k=Int(0, 1))
def backward(cmds, noisy, k):
    out = propagate(NoiseModel({noisy: StubDist(k)}), FakeCircuit(cmds), Direction.backward)
    want = []
    for c in reversed(cmds):
        if not (c.op.type == OpType.Measure or c.op.type == OpType.Barrier):
            if c.op.type == noisy and k > 0:
                want.append(("pre", ("first", k), c.args[0]))
                want.append(("pre", ("second", k), c.args[1]))
            want.append(("gate", c.op.dagger, c.args))
    ensure("from the end, each error and then back through its gate", out.log == want)


# ---- bounded
P.functions += [Q + "QermitPauli." + f for f in ("__init__", "is_measureable", "reduce_qubits", "dagger", "__eq__", "__hash__", "apply_circuit", "apply_gate",
                                                  "pre_apply_pauli", "post_apply_pauli", "get_control_circuit", "circuit", "qubit_pauli_tensor")]
P.functions += [N + "NoiseModel." + f for f in ("counter_propagate", "get_effective_pre_error_distribution")]
PAULIS = [Pauli.I, Pauli.X, Pauli.Y, Pauli.Z]
COEFFS = [1, -1, 1j, -1j]


def matrix(qpt, qs):
    m = np.array([[1]], complex)
    for q in qs:
        m = np.kron(m, PM[qpt.string.map.get(q, Pauli.I)])
    assert set(qpt.string.map) <= set(qs)
    return m * qpt.coeff


def tensor(s, coeff=1):
    return QubitPauliTensor(string=QubitPauliString(s), coeff=coeff)


def clifford_ops():
    """every kind of operation pytket calls Clifford that acts on up to three qubits, at every quarter turn"""
    out = []
    for t in OpType.__members__.values():
        for pars in ([], *[[x / 2] for x in range(-3, 9)], *[[x / 2, y / 2] for x in range(4) for y in range(4)], [1.5, 0.25], [-0.5, -1.5], [2.5, 1.0]):
            try:
                op = Op.create(t, pars)
                if op.n_qubits in (1, 2, 3) and op.is_clifford():
                    out.append((op, op.get_unitary()))
            except Exception:
                pass
    return out


SUPPORTED = [OpType.H, OpType.S, OpType.Sdg, OpType.X, OpType.Y, OpType.Z, OpType.V, OpType.Vdg, OpType.SX, OpType.SXdg, OpType.CX, OpType.CY, OpType.CZ,
             OpType.SWAP, OpType.noop, OpType.Rz, OpType.Rx, OpType.PhasedX, OpType.ZZMax, OpType.ZZPhase, OpType.ECR, OpType.ISWAPMax, OpType.BRIDGE]


@P.harness(runs=24)
def gates(r, i):
    """every Clifford operation supported, on every Pauli: Q G = G P"""
    for op, u in clifford_ops():
        n = op.n_qubits
        if n == 3 and i % 6:
            continue
        qs = rand_qubits(r, 3)[:n]
        r.shuffle(qs)
        allq = qs + [Qubit("other", 0)]
        r.shuffle(allq)
        for ps in itertools.product(PAULIS, repeat=n):
            s = {q: p for q, p in zip(qs, ps)}
            s[Qubit("other", 0)] = r.choice(PAULIS)
            t = tensor({q: s[q] for q in allq}, r.choice(COEFFS))
            pauli = QermitPauli(t)
            try:
                pauli.apply_gate(op=op, qubits=qs)
            except NotImplementedError:
                ensure("operation supported", op.type not in SUPPORTED, op)
                break
            u2 = np.kron(u, np.eye(2))
            left, right = matrix(pauli.qubit_pauli_tensor, qs + [Qubit("other", 0)]) @ u2, u2 @ matrix(t, qs + [Qubit("other", 0)])
            ensure("Pauli pushed through the gate", np.allclose(left, right), (op, t, pauli.qubit_pauli_tensor))


def rand_permuted_clifford(r, qs):
    c = rand_clifford(r, qs)
    for _ in range(r.randint(0, 3)):
        k = r.random()
        if len(qs) > 1 and k < 0.4:
            getattr(c, r.choice(["ZZMax", "ISWAPMax", "ECR"]))(*r.sample(qs, 2)) if r.random() < 0.5 else c.ZZPhase(r.randint(-4, 6) / 2, *r.sample(qs, 2))
        elif k < 0.6:
            c.add_barrier(r.sample(qs, r.randint(1, len(qs))))
        else:
            getattr(c, r.choice(["Rx", "Rz"]))(r.randint(-4, 6) / 2, r.choice(qs))
    if len(qs) > 1 and r.random() < 0.3:
        c.SWAP(*r.sample(qs, 2))
        c.replace_SWAPs()
    return c


@P.harness(runs=200)
def histories(r, i):
    """a Pauli after any sequence of operations is the product its matrices give"""
    qs = rand_qubits(r, r.randint(1, 3))
    order = list(qs)
    r.shuffle(order)
    t = tensor({q: r.choice(PAULIS) for q in order}, r.choice(COEFFS))
    pauli, m, steps = QermitPauli(t), matrix(t, qs), [t]
    for _ in range(r.randint(1, 6)):
        k = r.randrange(5)
        if k == 0:
            c = rand_permuted_clifford(r, qs)
            before = c.copy()
            pauli.apply_circuit(c)
            u = unitary(c, qs)
            m = u @ m @ u.conj().T
            steps.append((c.get_commands(), c.implicit_qubit_permutation()))
            ensure("circuit given unchanged", c == before)
        elif k in (1, 2):
            p, q = r.choice(PAULIS), r.choice(qs)
            x = matrix(tensor({q: p}), qs)
            (pauli.pre_apply_pauli if k == 1 else pauli.post_apply_pauli)(pauli=p, qubit=q)
            m = m @ x if k == 1 else x @ m
            steps.append(("pre" if k == 1 else "post", p, q))
        elif k == 3:
            old = pauli
            pauli = old.dagger
            ensure("inverse", np.allclose(matrix(old.qubit_pauli_tensor, qs), m))
            m = m.conj().T
            steps.append("dagger")
        else:
            other = QermitPauli(tensor({q: p for q, p in pauli.qubit_pauli_tensor.string.map.items()}, pauli.qubit_pauli_tensor.coeff))
            ensure("equal Paulis are equal", other == pauli and hash(other) == hash(pauli))
            pauli = other if r.random() < 0.5 else pauli
        log(steps)
        ensure("the Pauli is the product of its history", np.allclose(matrix(pauli.qubit_pauli_tensor, qs), m), pauli.qubit_pauli_tensor)
    s = pauli.qubit_pauli_tensor
    sel = r.sample(qs, r.randint(0, len(qs)))
    ensure("shows on qubits where it is X or Y", pauli.is_measureable(sel) == any(s.string.map.get(q, Pauli.I) in (Pauli.X, Pauli.Y) for q in sel))
    red = pauli.reduce_qubits(sel).qubit_pauli_tensor
    ensure("removing qubits keeps the others", red == tensor({q: p for q, p in s.string.map.items() if q not in sel}, s.coeff))
    ensure("a different Pauli differs", pauli != QermitPauli(tensor(dict(s.string.map), -s.coeff)) and pauli != s)
    u = unitary(pauli.circuit, qs) if set(pauli.circuit.qubits) == set(qs) else None
    ensure("circuit of the Pauli", u is not None and np.allclose(u, m), pauli.circuit.get_commands())
    a = Qubit("ancilla", r.randint(0, 2))
    cc = pauli.get_control_circuit(a)
    w = unitary(cc, [a] + qs)
    d = 2 ** len(qs)
    want = np.block([[np.eye(d), np.zeros((d, d))], [np.zeros((d, d)), m]])
    ensure("controlled circuit of the Pauli, with its phase", np.allclose(w, want), cc.get_commands())


@P.harness(runs=80)
def refusals(r, i):
    qs = rand_qubits(r, 2)
    p = QermitPauli(tensor({q: r.choice(PAULIS) for q in qs}))
    c = Circuit()
    for q in qs:
        c.add_qubit(q)
    k = i % 3
    if k == 0:
        getattr(c, r.choice(["Rz", "Rx"]))(r.choice([0.25, 0.3, 1.1]), qs[0])
    elif k == 1:
        c.ZZPhase(r.choice([0.25, 0.4]), *qs)
    else:
        b = Bit(0)
        c.add_bit(b)
        c.Measure(qs[0], b)
    try:
        p.apply_circuit(c)
        ok = False
    except Exception:
        ok = True
    ensure("refused: not a Clifford gate on qubits", ok)


class Queue:
    """distribution handing out given errors"""

    def __init__(self, errors):
        self.errors = errors

    def sample(self):
        return self.errors.pop(0)


@P.harness(runs=200)
def propagated(r, i):
    """errors after the gates they follow, pushed to one end, change the circuit as they do in place"""
    qs = rand_qubits(r, r.randint(1, 3))
    c = rand_permuted_clifford(r, qs)
    if any(cmd.op.type == OpType.ISWAPMax for cmd in c.get_commands()):
        raise Skip  # its inverse is not supported
    d = r.choice([Direction.backward, Direction.forward])
    perm = any(a != b for a, b in c.implicit_qubit_permutation().items())
    if perm and d == Direction.forward:
        raise Skip
    noisy = r.sample([OpType.CX, OpType.H, OpType.CZ, OpType.S, OpType.Rz, OpType.X, OpType.ZZPhase], 4)
    measured = c.copy()
    if not perm and r.random() < 0.4:
        measured.add_bit(Bit(0))
        measured.Measure(r.choice(qs), Bit(0))
    plain = [cmd for cmd in measured.get_commands() if cmd.op.type not in (OpType.Barrier, OpType.Measure)]
    errs = [r.choice([None, tuple(r.choice(PAULIS) for _ in cmd.qubits)]) if cmd.op.type in noisy else None for cmd in plain]
    log(c.get_commands(), errs, d)
    noisy_circ = Circuit()
    for q in c.qubits:
        noisy_circ.add_qubit(q)
    seq = {t: [] for t in noisy}
    for cmd, e in zip(plain, errs):
        noisy_circ.add_gate(cmd.op, cmd.args)
        if e:
            for q, p in zip(cmd.qubits, e):
                if p != Pauli.I:
                    noisy_circ.add_gate({Pauli.X: OpType.X, Pauli.Y: OpType.Y, Pauli.Z: OpType.Z}[p], [q])
    for cmd, e in (zip(plain, errs) if d == Direction.forward else zip(reversed(plain), reversed(errs))):
        if cmd.op.type in noisy:
            seq[cmd.op.type].append(e)
    m = NoiseModel({t: Queue(seq[t]) for t in noisy})
    p = m.random_propagate(measured, direction=d)
    ensure("every error used", not any(seq.values()))
    u = np.eye(2 ** len(qs), dtype=complex)
    plainc = Circuit()
    for q in c.qubits:
        plainc.add_qubit(q)
    for cmd in plain:
        plainc.add_gate(cmd.op, cmd.args)
    u = unitary(plainc, qs)
    e = matrix(p.qubit_pauli_tensor, qs)
    ensure("the error at the end asked for", same_up_to_phase(unitary(noisy_circ, qs), u @ e if d == Direction.backward else e @ u), p.qubit_pauli_tensor)


@P.harness(runs=40)
def counted(r, i):
    """errors are counted unless they cancel, out of the number of circuits asked for"""
    qs = rand_qubits(r, r.randint(1, 3))
    c = rand_clifford(r, qs, depth=r.randint(1, 6))
    n = r.randint(1, 30)
    rates = {OpType.CX: {(Pauli.X, Pauli.Z): 0.3, (Pauli.I, Pauli.Y): 0.2}, OpType.H: {(Pauli.Y,): 0.5, (Pauli.Z,): 0.5}, OpType.S: {(Pauli.X,): 0.2}}
    seed = r.randrange(10 ** 9)

    def model():
        m = NoiseModel({t: ErrorDistribution(dict(d)) for t, d in rates.items()})
        m.reset_rng(np.random.default_rng(seed))
        return m

    log(c.get_commands(), n, seed)
    for d in (Direction.backward, Direction.forward):
        m = model()
        want = Counter()
        for _ in range(n):
            p = m.random_propagate(c, direction=d)
            if any(x != Pauli.I for x in p.qubit_pauli_tensor.string.map.values()):
                want[p] += 1
        ensure("every error that does not cancel is counted", model().counter_propagate(cliff_circ=c, n_counts=n, direction=d) == want)
        if d == Direction.backward:
            led = model().get_effective_pre_error_distribution(cliff_circ=c, n_rand=n)
            ensure("out of all circuits", led.total == n and led.pauli_error_counter == want)
