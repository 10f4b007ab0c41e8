"""Frame randomisation: same computation in every frame, shots and results per circuit."""
from contracts.common import *  # noqa
from contracts.fakes import *  # noqa
from contracts.sim import *  # noqa
import os
from collections import Counter
from math import ceil
from pytket import OpType
from pytket.passes import AutoRebase
from pytket.tailoring import PauliFrameRandomisation
from qermit import CircuitShots, MitRes, MitTask
from qermit.frame_randomisation import gen_Frame_Randomisation_MitRes
from qermit.frame_randomisation.frame_randomisation import FrameRandomisation, frame_randomisation_circuits_task_gen, frame_randomisation_result_task_gen

F = "qermit/frame_randomisation/frame_randomisation.py:"
P = Prop("C13", [F + "frame_randomisation_circuits_task_gen", F + "frame_randomisation_result_task_gen"])


def instance(circ, shots, samples, j):
    return ("instance", circ, shots, samples, j)


callee(instance, "Instance")


def three(circ, shots, samples):
    return [instance(circ, shots, samples, j) for j in range(3)]


@P.contract(wires=ListOf(Shots(1)), samples=Int(1))
def circuits_in_order(wires, samples):
    out = frame_randomisation_circuits_task_gen(samples, three).run(wires)[0]
    ensure("every instance of every circuit", len(out) == 3 * len(wires))
    ensure("instances of a circuit together, in order, with its shots and the samples asked for",
           out == [instance(w.Circuit, w.Shots, samples, j) for w in wires for j in range(3)])


class Counts:
    """counts of a result, added readout by readout"""

    def __init__(self, d):
        self.d = d

    def __add__(self, other):
        out = dict(self.d)
        for k, v in other.d.items():
            out[k] = out.get(k, 0) + v
        return Counts(out)

    def items(self):
        return self.d.items()


class GivenResult:
    """a result whose counts are those of its bits in order"""

    def __init__(self, d, bits):
        self.d, self.c_bits = d, bits

    def get_counts(self):
        return Counts(self.d)


B = [Bit(0), Bit(1)]
Z = Int(0, 1)
D = DictOf(TupleOf(Z, Z), Int(1))


@P.contract(a=D, b=D, c=D, x=Z, y=Z)
def collated_pairs(a, b, c, x, y):
    # counts are given with bits in order, whatever the order the result lists them in
    res = [GivenResult(d, [B[1], B[0]]) for d in (a, b, c, a)]
    out = frame_randomisation_result_task_gen(2).run(res)[0]
    ensure("a result per circuit", len(out) == 2)
    ensure("counts of its instances added, each bit its own",
           out[0].get_counts(cbits=[B[0], B[1]]).get((x, y), 0) == a.get((x, y), 0) + b.get((x, y), 0)
           and out[1].get_counts(cbits=[B[0], B[1]]).get((x, y), 0) == c.get((x, y), 0) + a.get((x, y), 0))


# ---- bounded
P.functions += [F + "FrameRandomisation.PauliFrameRandomisation", F + "FrameRandomisation.UniversalFrameRandomisation", F + "gen_Frame_Randomisation_MitRes"]


def rand_bits(r, n):
    b = r.choice([[Bit(k) for k in range(n)], [Bit("z", 0)] + [Bit("m", k) for k in range(n - 1)], [Bit(7 + k) for k in range(n)]])
    b = list(b)
    if r.random() < 0.6:
        r.shuffle(b)
    return b


def rand_measured(r, measured=True, n=None):
    qs = rand_qubits(r, n or r.randint(1, 3))
    c = rand_circuit(r, qs)
    # at least one gate to put a frame around
    c.H(r.choice(qs))
    if len(qs) > 1:
        c.CX(*r.sample(qs, 2))
        if r.random() < 0.3:
            c.SWAP(*r.sample(qs, 2))
            c.replace_SWAPs()
    if r.random() < 0.3:
        c.add_phase(r.random())
    if measured:
        k = r.sample(qs, r.randint(1, len(qs)))
        for q, b in zip(k, rand_bits(r, len(k))):
            c.add_bit(b)
            c.Measure(q, b)
    return c


def accepted(circ):
    """pytket's cycle finder raises or aborts the process on some circuits: ask it in a process of its own"""
    pid = os.fork()
    if not pid:
        try:
            null = os.open(os.devnull, os.O_WRONLY)
            os.dup2(null, 1)
            os.dup2(null, 2)
            c = circ.copy()
            AutoRebase({OpType.CX, OpType.Rz, OpType.H, OpType.S}).apply(c)
            PauliFrameRandomisation().sample_circuits(c, 1)
            os._exit(0)
        except BaseException:
            os._exit(1)
    return os.waitpid(pid, 0)[1] == 0


def same_distribution(p, q, tol=1e-6):
    return all(abs(p.get(k, 0) - q.get(k, 0)) < tol for k in set(p) | set(q))


TYPES = [FrameRandomisation.PauliFrameRandomisation, FrameRandomisation.UniversalFrameRandomisation]


@P.harness(runs=200)
def instances(r, i):
    """every instance computes what the circuit computes"""
    t, m = TYPES[i % 2], r.random() < 0.5
    c = rand_measured(r, m)
    if t is TYPES[0] and not accepted(c):
        raise Skip
    shots, samples = r.randint(1, 50), r.randint(1, 6)
    log(c.get_commands(), c.implicit_qubit_permutation(), shots, samples)
    before = c.copy()
    if r.random() < 0.5:
        out = t(c, shots, samples)
    else:
        out = frame_randomisation_circuits_task_gen(samples, t).run([CircuitShots(c, shots)])[0]
    ensure("as many instances as asked for", len(out) == samples)
    ensure("shots divided over the instances, rounded up", all(x.Shots == ceil(shots / samples) for x in out))
    for x in [CircuitShots(c, 0)] + out:
        ensure("qubits and bits kept", set(x.Circuit.qubits) == set(before.qubits) and set(x.Circuit.bits) == set(before.bits))
        if m:
            ensure("every instance has the distribution of the circuit", same_distribution(distribution(x.Circuit, before.bits), distribution(before, before.bits)),
                   x.Circuit.get_commands())
        else:
            ensure("every instance has the unitary of the circuit", same_up_to_phase(unitary(x.Circuit, before.qubits), unitary(before, before.qubits)),
                   x.Circuit.get_commands())


@P.harness(runs=24)
def frames(r, i):
    """instances differ by random frames: Pauli frames keep rotation angles, universal frames also invert them"""
    n = 60
    c = Circuit(2).H(0).Rz(0.3, 0).CX(0, 1).Rz(0.3, 1).H(1)
    if i % 2:
        c.CX(0, 1).Rz(0.3, 0)
    for t in TYPES:
        out = t(c.copy(), n, n)
        angles = {round(float(cmd.op.params[0]) % 4, 6) for x in out for cmd in x.Circuit.get_commands() if cmd.op.type == OpType.Rz}
        names = {tuple((cmd.op.type, tuple(cmd.qubits)) for cmd in x.Circuit.get_commands()) for x in out}
        ensure("frames are random", len(names) > 10, len(names))
        three, five = 0.3 in angles, 3.7 in angles
        log(t.__name__, angles)
        if t is TYPES[0]:
            ensure("Pauli frames keep rotations that are not Clifford", three and not five)
        else:
            ensure("universal frames invert rotations", three and five)


@P.harness(runs=200)
def collated(r, i):
    """every shot of every instance of a circuit, each bit its own, and none of another circuit"""
    samples = r.randint(1, 4)
    res, want = [], []
    for k in range(r.randint(1, 4)):
        bits, rows = rand_bits(r, r.randint(1, 3)), []
        for _ in range(samples):
            t = rand_table(r, r.randint(1, 5), len(bits))
            own = list(bits)
            if r.random() < 0.3:
                r.shuffle(own)
            res.append(shots_result([[row[bits.index(b)] for b in own] for row in t], own))
            rows += [tuple(x) for x in t]
        want.append((bits, Counter(rows)))
    log(samples, want)
    out = frame_randomisation_result_task_gen(samples).run(res)[0]
    ensure("a result per circuit", len(out) == len(want))
    for o, (bits, w) in zip(out, want):
        ensure("same bits", set(o.c_bits) == set(bits))
        ensure("every shot, each bit its own", counts_of(o, bits) == dict(w), (counts_of(o, bits), w))


@P.harness(runs=60)
def pipeline(r, i):
    """noiseless device: the distribution of each circuit comes back, from as many instances as asked for"""
    samples = r.randint(1, 5)
    wires = [CircuitShots(rand_measured(r), r.randint(1, 40)) for _ in range(r.randint(1, 3))]
    before = [w.Circuit.copy() for w in wires]
    log(samples, [(w.Circuit.get_commands(), w.Shots, w.Circuit.implicit_qubit_permutation()) for w in wires])

    def compile(c, level):
        c = c.copy()
        c.name = "compiled"
        return c

    be, inner = exact_backend(compile=compile), exact_backend()
    kw = {}
    own = r.random() < 0.5
    if own:
        kw["mitres"] = MitRes(inner)
        graph = list(kw["mitres"]._task_graph.nodes), [str(n) for n in kw["mitres"]._task_graph.nodes]
    seen = []
    if r.random() < 0.7:
        t = r.choice(TYPES if all(accepted(w.Circuit) for w in wires) else TYPES[1:])

        def typed(c, s, n):
            seen.append((s, n))
            return t(c, s, n)

        kw["frame_randomisation"] = typed
    m = gen_Frame_Randomisation_MitRes(be, samples, **kw)
    out = m.run([CircuitShots(w.Circuit, w.Shots) for w in wires])
    if "frame_randomisation" in kw:
        ensure("the type of frame asked for is used", seen == [(w.Shots, samples) for w in wires])
    if own:
        n = kw["mitres"]._task_graph.nodes
        ensure("the MitRes given is unchanged", (list(n), [str(x) for x in n]) == graph)
        ensure("the device of the MitRes given runs circuits", not be.jobs)
    ensure("every instance runs with its shots, in order", [s for _, s in (inner if own else be).jobs] == [ceil(w.Shots / samples) for w in wires for _ in range(samples)])
    ensure("every instance is compiled for the device", all(c.name == "compiled" for c, _ in (inner if own else be).jobs))
    ensure("a result per circuit", len(out) == len(wires))
    for k, (w, b) in enumerate(zip(wires, before)):
        d, got = distribution(b), counts_of(out[k], b.bits)
        total = sum(got.values())
        ensure("the distribution of the circuit", same_distribution(d, {x: v / total for x, v in got.items()}, 1e-4), (d, got))
        ensure("the circuit given still computes the same", same_distribution(distribution(w.Circuit, b.bits), d))
