"""Leakage detection: every circuit with its own gadgets, every result by its own manager."""
from contracts.common import *  # noqa
from contracts.fakes import *  # noqa
from contracts.sim import *  # noqa
from collections import Counter
from typing import List, Tuple
from pydv.interp import MODELS
from pytket import OpType
from pytket.backends.backend_exceptions import InvalidResultType
from pytket.backends.backendresult import BackendResult
from pytket.extensions.quantinuum.backends import leakage_gadget as lg
from qermit import CircuitShots, MitRes, MitTask
from qermit.leakage_detection import leakage_detection as ld
from qermit.leakage_detection import get_leakage_detection_mitres
from qermit.postselection import PostselectMgr

L = "qermit/leakage_detection/leakage_detection.py:"
P = Prop("C19", [L + "gen_add_leakage_gadget_circuit_task", L + "get_leakage_detection_mitres"])
BitT = Opaque("Bit", lambda k: Bit(k), cls=Bit)


class Circ:
    """a circuit as its bits and those its gadgets need"""

    def __init__(self, own, every, gadget=None):
        self.own, self.every, self.gadget = own, every, gadget

    @property
    def bits(self):
        return list(self.own)


def detection(circuit, n_device_qubits):
    if isinstance(circuit, Circ):
        return Circ(circuit.every, circuit.every, n_device_qubits)
    return lg.get_detection_circuit(circuit, n_device_qubits)


if ld.get_detection_circuit is lg.get_detection_circuit:
    ld.get_detection_circuit = detection


class Mgr:
    def __init__(self, compute_cbits, postselect_cbits):
        self.compute_cbits, self.postselect_cbits = compute_cbits, postselect_cbits


MODELS[PostselectMgr] = lambda ex, a, k: ex.construct(Mgr, a, k)


class Info:
    def __init__(self, n_nodes):
        self.n_nodes = n_nodes


class Dev:
    def __init__(self, info):
        self.backend_info = info


CircT = InstOf(Circ, own=DictOf(BitT, Int(0, 0)), every=DictOf(BitT, Int(0, 0)))


@P.contract(wire=ListOf(NTOf(CircuitShots, CircT, Int(1))), n=Int(1))
def gadgets(wire, n):
    require(all(b in w.Circuit.every for w in wire for b in w.Circuit.own))
    circs, mgrs = ld.gen_add_leakage_gadget_circuit_task(Dev(Info(n))).run(wire)
    ensure("a circuit per circuit", len(circs) == len(wire))
    ensure("a manager per circuit", len(mgrs) == len(wire))
    ensure("its own shots", all(c.Shots == w.Shots for c, w in zip(circs, wire)))
    ensure("its own gadgets, for the qubits of the device", all(c.Circuit.gadget == n and c.Circuit.bits == list(w.Circuit.every) for c, w in zip(circs, wire)))
    for m, w in zip(mgrs, wire):
        ensure("keeps the circuit's own bits, in order", list(m.compute_cbits) == list(w.Circuit.own))
        ensure("postselects on the bits added", all((b in m.postselect_cbits) == (b not in w.Circuit.own) for b in w.Circuit.every) and all(b in w.Circuit.every and b not in w.Circuit.own for b in m.postselect_cbits))


@P.contract(k=OneOf(0, 1))
def no_device(k):
    try:
        ld.gen_add_leakage_gadget_circuit_task(Dev(None if k == 0 else Info(3)))
        ok = True
    except Exception:
        ok = False
    ensure("refused exactly without device information", ok == (k == 1))


class Device(FakeBackend):
    def __init__(self, answer, n):
        super().__init__(answer)
        self.backend_info = Dev(Info(n)).backend_info


def rand_measured(r, n):
    qs = rand_qubits(r, n)
    bits = r.sample([Bit("c", k) for k in range(4)] + [Bit("out", k) for k in range(3)] + [Bit("m", 3)], n)
    c = rand_circuit(r, qs, r.randint(1, 5))
    c.replace_implicit_wire_swaps()
    for b in bits if r.random() < 0.5 else sorted(bits):
        c.add_bit(b)
    for q, b in zip(qs, bits):
        c.Measure(q, b)
    if n < 4 and r.random() < 0.4:
        extra = Qubit("unread", 0)
        c.add_qubit(extra)
        c.H(extra)
    return c


def rows(c, s, seed):
    import random

    q = random.Random(seed)
    p = q.choice([0.1, 0.5, 0.9])
    return [[q.randint(0, 1) if b.reg_name != "leakage_detection_bit" else int(q.random() < p) for b in c.bits] for _ in range(s)]


def kept(res, own):
    try:
        return counts_of(res, own)
    except InvalidResultType:
        return {}  # no shot at all


@P.harness(runs=500)
def pipeline(r, i):
    """every circuit keeps exactly the shots in which no leakage is detected"""
    exact = i % 3 == 0
    wires = [CircuitShots(Circuit=rand_measured(r, r.randint(1, 2 if exact else 4)), Shots=r.randint(1, 30)) for _ in range(r.randint(1, 3))]
    most = max(w.Circuit.n_qubits for w in wires)
    n = most + r.randint(0, 2)
    before = [w.Circuit.copy() for w in wires]
    log([w.Circuit.get_commands() for w in wires], n)

    def answer(c, s, k):
        if exact:
            table = {b: float(np.trace(m).real) for b, m in outcomes(c, c.qubits, c.bits).items()}
            return counts_result(exact_counts(table), c.bits)
        bits = sorted(c.bits, key=lambda b: str(b)[::-1] if (i + k) % 2 else str(b))
        return shots_result([[row[c.bits.index(b)] for b in bits] for row in rows(c, s, 100 * i + k)], bits)

    device = Device(answer, n)
    given = MitRes(device)
    if r.random() < 0.5:
        tasks = len(given.tasks)
        mitres = get_leakage_detection_mitres(device, mitres=given)
        ensure("MitRes given unchanged", len(given.tasks) == tasks)
    else:
        mitres = get_leakage_detection_mitres(device)
    for turn in range(r.choice([1, 2])):
        device.jobs.clear()
        out = mitres.run([CircuitShots(Circuit=w.Circuit, Shots=w.Shots) for w in wires])
        ensure("one result per circuit", len(out) == len(wires) == len(device.jobs))
        ensure("own shots", [s for _, s in device.jobs] == [w.Shots for w in wires])
        ensure("circuits given unchanged", [w.Circuit for w in wires] == before and all(a.Circuit.name == b.name for a, b in zip(wires, before)))
        for k, (w, res, (c, s)) in enumerate(zip(wires, out, device.jobs)):
            own = list(w.Circuit.bits)
            extra = [b for b in c.bits if b not in own]
            ensure("one gadget for every measured qubit", len(extra) == len(own) - (n == w.Circuit.n_qubits), c.get_commands())
            ensure("no more qubits than the device has", c.n_qubits <= n)
            ensure("the circuit's own bits", set(own) <= set(c.bits) and (kept(res, own) == {} or set(res.c_bits) == set(own)))
            if exact:
                want = exact_counts(distribution(w.Circuit, own))
                ensure("results unchanged without leakage", counts_of(res, own) == want, (counts_of(res, own), want))
            else:
                want = Counter(tuple(row[c.bits.index(b)] for b in own) for row in rows(c, s, 100 * i + k) if not any(row[c.bits.index(b)] for b in extra))
                ensure("shots without leakage", kept(res, own) == dict(want), (res, want))
