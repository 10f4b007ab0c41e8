"""Noise scaling by folding: same unitary, gate counts scaled as asked."""
from contracts.common import *  # noqa
from contracts.fakes import *  # noqa
from contracts.sim import *  # noqa
from math import floor
from pytket.circuit import CircBox, PauliExpBox, Unitary1qBox
from pytket.passes import RemoveRedundancies
from qermit.noise_model import ErrorDistribution, NoiseModel
from qermit.zero_noise_extrapolation.zne import Folding

Z = "qermit/zero_noise_extrapolation/zne.py:"
LEVEL = "exploration"
P = Prop("C08", [])
P.functions += [Z + "Folding." + f for f in ("circuit", "two_qubit_gate", "gate", "odd_gate", "noise_aware")]
ROT1, ROT2 = ["Rx", "Ry", "Rz"], ["ZZPhase", "XXPhase", "YYPhase", "CRz"]


def rand_fold_circuit(r, two=False, permute=True, bits=True):
    """gates of distinct angles (so that each gate can be counted), fixed gates, barriers; perhaps bits, phase and permuted wires"""
    n = r.randint(2 if two else 1, 3)
    qs = rand_qubits(r, n)
    c = Circuit(name="fold")
    for q in qs:
        c.add_qubit(q)
    if bits and r.random() < 0.3:
        c.add_bit(Bit(0))
    for k in range(r.randint(1, 7)):
        x = r.random()
        angle = round(0.03 + 0.11 * k + r.random() * 0.01, 6)
        if n > 1 and (x < 0.4 or (two and k == 0)):
            a = r.sample(qs, 2)
            if x < 0.3:
                getattr(c, r.choice(ROT2))(angle, *a)
            else:
                getattr(c, r.choice(["CX", "CZ", "CY"]))(*a)
        elif x < 0.7:
            getattr(c, r.choice(ROT1))(angle, r.choice(qs))
        elif x < 0.85:
            getattr(c, r.choice(["H", "S", "Tdg", "V", "SX"]))(r.choice(qs))
        elif x < 0.92:
            c.add_barrier(r.sample(qs, r.randint(1, n)))
        elif n > 1:
            c.SWAP(*r.sample(qs, 2))
        else:
            c.X(qs[0])
    if r.random() < 0.3:
        c.add_phase(0.3)
    if permute and r.random() < 0.4:
        c.replace_SWAPs()
    return c


def key(op, args):
    return (op.type, tuple(round(float(p) % 4, 5) for p in op.params), tuple(map(str, args)))


def gates(c):
    return [(cmd.op, cmd.args) for cmd in c.get_commands() if cmd.op.type != OpType.Barrier]


def folds(c, f):
    """per gate of c: number of extra (inverse, gate) pairs in f; None if f is not made of such pairs"""
    from collections import Counter

    left = Counter(key(o, a) for o, a in gates(f))
    orig = Counter(key(o, a) for o, a in gates(c))
    inv = {}
    for o, a in gates(c):
        inv.setdefault(key(o, a), key(o.dagger, a))
    out = {}
    for g, n in orig.items():
        d = inv[g]
        if d == g or d in orig:
            out[g] = out.get(g)  # counted in total only
            continue
        extra = left.pop(g, 0) - n
        if extra < 0 or left.pop(d, 0) != extra:
            return None
        out[g] = extra / n
    if any(g not in orig and g not in inv.values() for g in left):
        return None
    return out


def common(c, before, out, name):
    ensure("circuit given is kept", c == before)
    ensure("qubits and bits", out.qubits == c.qubits and out.bits == c.bits, (name, out.bits))
    ensure("same unitary", same_up_to_phase(unitary(out), unitary(before)), (name, out.get_commands()))
    tight = before.copy()
    RemoveRedundancies().apply(tight)
    if len(gates(tight)) == len(gates(before)):
        t = out.copy()
        RemoveRedundancies().apply(t)
        ensure("folds are not optimised away", len(gates(t)) == len(gates(out)), name)


@P.harness(runs=250)
def whole_circuit(r, i):
    c = rand_fold_circuit(r)
    s = r.choice([1, 3, 5])
    log(c.get_commands(), s)
    before = c.copy()
    outs = Folding.circuit(c, s)
    ensure("one circuit", len(outs) == 1)
    common(c, before, outs[0], "circuit")
    ensure("gates scaled exactly", len(gates(outs[0])) == s * len(gates(c)))
    if any(a != b for a, b in c.implicit_qubit_permutation().items()):
        return
    f = folds(c, outs[0])
    ensure("every gate folded alike", f is not None and all(v is None or v == (s - 1) / 2 for v in f.values()), (f, gates(c), gates(outs[0])))


@P.harness(runs=250)
def two_qubit(r, i):
    c = rand_fold_circuit(r, two=True)
    two = [(o, a) for o, a in gates(c) if len(a) == 2]
    n = len(two)
    if not n:
        raise Skip
    exact = r.random() < 0.5
    s = (n + 2 * r.randint(0, 3 * n)) / n if exact else r.uniform(1, 6)
    kw = r.choice([{}, dict(_allow_approx_fold=True), dict(_allow_approx_fold=False)])
    log(c.get_commands(), s, kw)
    before = c.copy()
    target = (s - 1) * n / 2
    want = floor(target + 1e-6)
    try:
        outs = Folding.two_qubit_gate(c, s, **kw)
    except ValueError:
        ensure("refused only if it cannot be exact", kw.get("_allow_approx_fold", True) is False and abs(want - target) > 1e-6, (want, target))
        return
    ensure("refused if it cannot be exact", kw.get("_allow_approx_fold", True) or abs(want - target) * 2 / n < 2e-3, (want, target))
    ensure("one circuit", len(outs) == 1)
    out = outs[0]
    common(c, before, out, "two_qubit_gate")
    ensure("exact, or closest from below", len([1 for o, a in gates(out) if len(a) == 2]) == n + 2 * want, (n, want, out.get_commands()))
    ensure("other gates kept", [key(o, a) for o, a in gates(out) if len(a) != 2].__len__() == len(gates(c)) - n)
    f = folds(c, out)
    low = int(s - 1 + 1e-9) // 2
    two_keys = {key(o, a) for o, a in two}
    ensure("only two-qubit gates, evenly", f is not None and all(v is None or (low <= v <= low + 1 if k in two_keys else v == 0) for k, v in f.items()), (low, f))


@P.harness(runs=250)
def some_gates(r, i):
    c = rand_fold_circuit(r)
    n = len(gates(c))
    if not n:
        raise Skip
    exact = r.random() < 0.6
    s = (n + 2 * r.randint(0, 3 * n)) / n if exact else r.uniform(1, 6)
    kw = r.choice([{}, dict(_allow_approx_fold=True), dict(_allow_approx_fold=False)])
    log(c.get_commands(), s, kw)
    before = c.copy()
    target = (s - 1) * n / 2
    want = floor(target + 1e-6)
    try:
        outs = Folding.gate(c, s, **kw)
    except ValueError:
        ensure("refused only if it cannot be exact", not kw.get("_allow_approx_fold") and abs(want - target) > 1e-6, (want, target))
        return
    ensure("refused if it cannot be exact", kw.get("_allow_approx_fold") or abs(want - target) * 2 / n < 2e-3, (want, target))
    ensure("one circuit", len(outs) == 1)
    common(c, before, outs[0], "gate")
    ensure("exact, or closest from below", len(gates(outs[0])) == n + 2 * want, (n, want))
    ensure("made of folds", folds(c, outs[0]) is not None)


@P.harness(runs=200)
def odd_gates(r, i):
    c = rand_fold_circuit(r)
    s = r.randint(1, 4)
    log(c.get_commands(), s)
    before = c.copy()
    outs = Folding.odd_gate(c, s)
    ensure("one circuit", len(outs) == 1)
    common(c, before, outs[0], "odd_gate")
    n = len(gates(c))
    ensure("every other gate folded", len(gates(outs[0])) == n + 2 * (s - 1) * ((n + 1) // 2))
    f = folds(c, outs[0])
    want = {}
    for k, (o, a) in enumerate(gates(c)):
        want.setdefault(key(o, a), []).append((s - 1) if k % 2 == 0 else 0)
    ensure("the first, third, fifth ... gate", f is not None and all(v is None or v == sum(want[k]) / len(want[k]) for k, v in f.items()), (f, want))


@P.harness(runs=80)
def refused(r, i):
    c = rand_fold_circuit(r, two=True, bits=False)

    def no(f, exc, *a, **kw):
        try:
            f(*a, **kw)
        except exc:
            return True
        return False

    ensure("circuit folding needs odd integers", no(Folding.circuit, ValueError, c, r.choice([0, 2, 4, 6, 2.5, 3.5, 1.1])))
    ensure("noise is not scaled down", no(Folding.two_qubit_gate, ValueError, c, r.uniform(0, 0.999)))
    inner = Circuit(2).CX(0, 1)
    box = r.choice([CircBox(inner), PauliExpBox([Pauli.X, Pauli.Y], 0.3)])
    b = Circuit(2).H(0).CZ(0, 1)
    b.add_gate(box, [0, 1])
    ensure("boxes are refused", no(Folding.circuit, RuntimeError, b, 3) and no(Folding.two_qubit_gate, RuntimeError, b, 3))
    one = Circuit(2).H(0).Rz(0.3, 1)
    if r.random() < 0.5:
        one.add_barrier([0, 1])
    ensure("needs two-qubit gates", no(Folding.two_qubit_gate, RuntimeError, one, 3))


@P.harness(runs=60)
def by_noise_model(r, i):
    """samples asked for; errors only behind the gates the model names, none when nothing is added"""
    c = rand_fold_circuit(r)
    s = r.choice([1, 1.5, 2, 3])
    n = r.randint(1, 4)
    model = NoiseModel({t: ErrorDistribution({(Pauli.X, Pauli.Y): 0.3, (Pauli.Z, Pauli.I): 0.2}) for t in (OpType.CX, OpType.CZ, OpType.ZZPhase)})
    log(c.get_commands(), s, n)
    before = c.copy()
    outs = Folding.noise_aware(c, s, noise_model=model, n_noisy_circuit_samples=n)
    ensure("samples", len(outs) == n)
    ensure("circuit given is kept", c == before)
    for o in outs:
        ensure("qubits and bits", o.qubits == c.qubits and o.bits == c.bits)
        extra = [key(p, a) for p, a in gates(o)]
        for p, a in gates(c):
            ensure("every gate stays", key(p, a) in extra)
            extra.remove(key(p, a))
        noisy = sum(o_.type in model.noise_model for o_, _ in gates(c))
        ensure("only Pauli errors are added", all(k[0] in (OpType.X, OpType.Y, OpType.Z) for k in extra) and len(extra) <= 2 * noisy, extra)
        ensure("nothing else changes", o.phase == c.phase and o.implicit_qubit_permutation() == c.implicit_qubit_permutation() and o.name in (None, c.name))
        ensure("nothing is added when the noise is kept", s != 1 or not extra)
    plain = Folding.noise_aware(c, s)
    ensure("no noise by default", len(plain) == 1 and same_up_to_phase(unitary(plain[0]), unitary(c)) and len(gates(plain[0])) == len(gates(c)))


@P.harness(runs=40)
def noise_rate(r, i):
    """errors are added at the rate that makes the whole noise the factor asked for times that of the model"""
    ty = r.choice([OpType.CX, OpType.CZ])
    k = r.randint(20, 40)
    c = Circuit(2)
    for _ in range(k):
        c.add_gate(ty, [0, 1]).H(0)
    a, b = r.choice([Pauli.X, Pauli.Y, Pauli.Z]), r.choice([Pauli.X, Pauli.Y, Pauli.Z])
    rate, s = (1, r.choice([2, 3, 4])) if i % 2 else (r.choice([0.05, 0.2, 0.3]), r.choice([1.5, 2, 2.5, 3]))
    want = (1 - (1 - 2 * rate) ** (s - 1)) / 2
    n = r.randint(5, 10)
    outs = Folding.noise_aware(c, s, noise_model=NoiseModel({ty: ErrorDistribution({(a, b): rate})}), n_noisy_circuit_samples=n)
    log(ty, k, rate, s, n)
    ops = {Pauli.X: OpType.X, Pauli.Y: OpType.Y, Pauli.Z: OpType.Z}
    for p, q in ((a, 0), (b, 1)):
        got = sum(o.type == ops[p] and w[0] == Qubit(q) for out in outs for o, w in gates(out))
        ensure("rate", abs(got - n * k * want) <= 7 * (n * k * want * (1 - want)) ** 0.5 + 1e-9, (got, n * k * want))


# ---- proved: folding in terms of gates, which are free generators
class Args:
    def __init__(self, id):
        self.id = id


class Gate:
    def __init__(self, id, type, args):
        self.id, self.type, self.args = id, type, args

    @property
    def dagger(self):
        return Gate(-self.id, self.type, self.args)


class Cmd:
    def __init__(self, op, args):
        self.op, self.args = op, args


class Rec:
    """a circuit as where it stands: `at` is the number of commands of `commands` applied net, `ok` tells that the gates and barriers
    added were each time the next of them, or the last undone, with a barrier over everything at each turn; so that it equals the
    first `at` of them, and no compiler may cancel a gate with its inverse"""

    def __init__(self, commands, qubits, bits):
        self.commands, self.qubits, self.bits = commands, qubits, bits
        self.at, self.ok, self.forward, self.apart, self.n = 0, True, True, True, 0

    def get_commands(self):
        return self.commands

    def copy(self):
        c = Rec(self.commands, self.qubits, self.bits)
        c.at = c.n = len(self.commands)
        c.apart = False
        return c

    def step(self, id):
        self.n += 1
        if id == self.at + 1:
            self.ok = self.ok and (self.forward or self.apart)
            self.at += 1
            self.forward = True
        elif id == -self.at:
            self.ok = self.ok and (self.apart or not self.forward)
            self.at -= 1
            self.forward = False
        else:
            self.ok = False
        self.apart = False

    def add_barrier(self, args):
        if isinstance(args, Args):
            self.step(args.id if args.id == self.at + 1 else -args.id)
        elif args == self.qubits + self.bits:
            self.apart = True

    def add_gate(self, op, args):
        self.step(op.id)
        self.ok = self.ok and op.args.id == args.id and op.type != OpType.Barrier


UnitT = Opaque("UnitID", lambda k: Qubit(k))
Type = OneOf(OpType.CX, OpType.Barrier, OpType.CircBox)


@P.contract(types=ListOf(Type), qubits=ListOf(UnitT), bits=ListOf(UnitT), s=Int(1))
def whole(types, qubits, bits, s):
    commands = [Cmd(Gate(k + 1, t, Args(k + 1)), Args(k + 1)) for k, t in enumerate(types)]
    boxes = any(t == OpType.CircBox for t in types)
    try:
        outs = Folding.circuit(Rec(commands, qubits, bits), s)
        raised = None
    except ValueError:
        raised = "even"
    except RuntimeError:
        raised = "box"
    ensure("refused exactly when even", (raised == "even") == (s % 2 == 0))
    ensure("boxes are refused", (raised == "box") == (boxes and s % 2 == 1 and s > 1))
    if raised is None:
        ensure("one circuit", len(outs) == 1)
        ensure("the gates of the circuit, but for pairs of a gate and its inverse with barriers between", outs[0].ok)
        ensure("same unitary", outs[0].at == len(commands))
        ensure("gates scaled exactly", outs[0].n == s * len(commands))
