"""Coherent Pauli checks: boxing Clifford subcircuits, adding checks, choosing them, discarding what they find."""
from contracts.common import *  # noqa
from contracts.fakes import *  # noqa
from contracts.sim import *  # noqa
import itertools
from collections import Counter
from typing import Any, NamedTuple
import networkx as nx
from pytket import OpType
from pytket.circuit import CircBox, Op
from pytket.passes import DecomposeBoxes
from pytket.pauli import Pauli, QubitPauliString, QubitPauliTensor
from qermit import CircuitShots
from qermit.coherent_pauli_checks import coherent_pauli_checks_mitres as cpc
from qermit.coherent_pauli_checks import (
    DeterministicXPauliSampler, DeterministicZPauliSampler, OptimalPauliSampler, PauliSampler, RandomPauliSampler, gen_coherent_pauli_check_mitres)
from qermit.coherent_pauli_checks.box_clifford_subcircuits import BoxClifford, _circuit_to_graph, _get_clifford_commands, _give_nodes_subdag
from qermit.coherent_pauli_checks.coherent_pauli_checks_mitres import gen_check_circuit_task, gen_find_cliffords_task
from qermit.coherent_pauli_checks.monochromatic_convex_subdag import _subdag_predecessors, _subdag_successors, get_monochromatic_convex_subdag
from qermit.noise_model.qermit_pauli import QermitPauli

D = "qermit/coherent_pauli_checks/"
BX, CM, SD, PS = D + "box_clifford_subcircuits.py:", D + "coherent_pauli_checks_mitres.py:", D + "monochromatic_convex_subdag.py:", D + "pauli_sampler.py:"
LEVEL = "exploration"
P = Prop("C16", [BX + "_get_clifford_commands", BX + "_command_is_clifford", SD + "_subdag_predecessors", SD + "_subdag_successors", SD + "_subdag_nodes",
                 CM + "gen_find_cliffords_task", CM + "gen_check_circuit_task", PS + "OptimalPauliSampler.sample"])


class FakeOp(NamedTuple):
    """a gate: its type, angles, and whether pytket calls its type Clifford"""
    type: Any
    params: Any
    clifford: bool

    def is_clifford_type(self):
        return self.clifford


class FakeCommand(NamedTuple):
    op: Any


OpT = Opaque("OpType", lambda k: [OpType.Rz, OpType.PhasedX, OpType.H, OpType.T, OpType.CX][k % 5], cls=OpType)


@P.contract(cmds=ListOf(NTOf(FakeCommand, NTOf(FakeOp, OpT, ListOf(Real(), min=1, max=2), Bool()))), k=Int(0))
def clifford_commands(cmds, k):
    require(k < len(cmds))
    out = _get_clifford_commands(cmds)
    op = cmds[k].op
    ensure("every command of a Clifford type is found", implies(op.clifford, k in out))
    ensure("others only at angles making them Clifford",
           implies(k in out and not op.clifford, (op.type == OpType.Rz and op.params[0] == 0.5) or (op.type == OpType.PhasedX and op.params[0] == 0.5 and op.params[-1] == 0.5)))


def left(node):
    return node // 2 - 1


def right(node):
    return (node - 1) // 3


callee(left, "Node")
callee(right, "Node")


NodeT = Opaque("Node", lambda k: k)


class FakeDag:
    """a graph in which every node has two neighbours on each side"""

    def __init__(self, n):
        self.n = n

    def predecessors(self, node):
        return [left(node), right(node)]

    def successors(self, node):
        return [right(node), left(node)]


@P.contract(lab=DictOf(NodeT, Int()), s=Int())
def before_subdag(lab, s):
    out = _subdag_predecessors(dag=FakeDag(0), subdag=s, node_subdag=lab)
    inside = [n for n, t in lab.items() if t == s]
    ensure("nodes before those of the sub-DAG that are not in it", out == [p for n in inside for p in [left(n), right(n)] if p not in inside])


@P.contract(lab=DictOf(NodeT, Int()), s=Int())
def after_subdag(lab, s):
    out = _subdag_successors(dag=FakeDag(0), subdag=s, node_subdag=lab)
    inside = [n for n, t in lab.items() if t == s]
    ensure("nodes after those of the sub-DAG that are not in it", out == [p for n in inside for p in [right(n), left(n)] if p not in inside])


# ---- tasks, over passes and samplers that only record
class Logged:
    """a circuit that records what was done to it"""

    def __init__(self, k, bits, log):
        self.k, self.bits, self.log = k, bits, log

    def copy(self):
        return Logged(self.k, self.bits, self.log)


class StubPass:
    def __init__(self, name):
        self.name = name

    def apply(self, circ):
        circ.log = circ.log * 2 + self.name


def stub_box():
    return StubPass(0)


def stub_decompose():
    return StubPass(1)


class Ancilla(NamedTuple):
    """bit added for a check"""
    k: int
    n: int


class StubSampler:
    """adds one check to every circuit"""

    def add_pauli_checks_to_circbox(self, circuit):
        return Logged(circuit.k, circuit.bits, circuit.log * 2 + 3), [Ancilla(circuit.k, circuit.log)]


class StubManager(NamedTuple):
    compute_cbits: Any
    postselect_cbits: Any


def with_stubs(task, circs):
    """the task with its passes and the postselection manager only recording what they are given"""
    real = cpc.BoxClifford, cpc.DecomposeBoxes, cpc.PostselectMgr
    cpc.BoxClifford, cpc.DecomposeBoxes, cpc.PostselectMgr = stub_box, stub_decompose, StubManager
    try:
        return task.run(circs)
    finally:
        cpc.BoxClifford, cpc.DecomposeBoxes, cpc.PostselectMgr = real


MODELS[with_stubs] = lambda ex, a, k: ex.call(ex.getattr(a[0], "run"), [a[1]], {})
MODELS[cpc.PostselectMgr] = lambda ex, a, k: ex.construct(StubManager, a, k)
MODELS[BoxClifford] = lambda ex, a, k: ex.construct(StubPass, [0], {})
MODELS[DecomposeBoxes] = lambda ex, a, k: ex.construct(StubPass, [1], {})


class Wire(NamedTuple):
    k: int
    bits: Any
    log: int
    shots: int


WireT = NTOf(Wire, Int(0), ListOf(Opaque("Bit", Bit), max=3), Int(1), Int(1))


@P.contract(ws=ListOf(WireT))
def boxed_in_order(ws):
    given = [CircuitShots(Circuit=Logged(w.k, w.bits, w.log), Shots=w.shots) for w in ws]
    out = with_stubs(gen_find_cliffords_task(), given)[0]
    ensure("every circuit boxed once, in order", [(c.Circuit.k, c.Circuit.log) for c in out] == [(w.k, w.log * 2) for w in ws])
    ensure("with its own shots", [c.Shots for c in out] == [w.shots for w in ws])
    ensure("circuits given unchanged", [c.Circuit.log for c in given] == [w.log for w in ws])


@P.contract(ws=ListOf(WireT))
def checked_in_order(ws):
    given = [CircuitShots(Circuit=Logged(w.k, w.bits, w.log), Shots=w.shots) for w in ws]
    out, managers = with_stubs(gen_check_circuit_task(StubSampler()), given)
    ensure("every circuit checked, then its boxes opened, in order", [(c.Circuit.k, c.Circuit.log) for c in out] == [(w.k, (w.log * 2 + 3) * 2 + 1) for w in ws])
    ensure("with its own shots", [c.Shots for c in out] == [w.shots for w in ws])
    ensure("its manager keeps the circuit's own bits", [m.compute_cbits for m in managers] == [w.bits for w in ws])
    ensure("and selects on the bits of its own checks", [m.postselect_cbits for m in managers] == [[Ancilla(w.k, w.log)] for w in ws])


class StubCircuit:
    def __init__(self, n):
        self.n_qubits, self.qubits = n, [Qubit(j) for j in range(n)]


class StubError(NamedTuple):
    """an error, and whether it commutes with X, Y and Z"""
    k: int
    x: bool
    y: bool
    z: bool

    def commutes_with(self, string):
        p = string.map[Qubit(0)]
        return (p == Pauli.I) or (p == Pauli.X and self.x) or (p == Pauli.Y and self.y) or (p == Pauli.Z and self.z)


class StubNoise:
    """noise model with a given distribution of errors"""

    def __init__(self, dist):
        self.dist, self.distribution, self.asked = dist, dist, []

    def get_effective_pre_error_distribution(self, cliff_circ):
        self.asked.append(cliff_circ)
        return self


class StubString:
    """a Pauli string: its map"""
    _pydv_model = True

    def __init__(self, map=None, qubits=None, paulis=None):
        self.map = map if qubits is None else {q: p for q, p in zip(qubits, paulis)}


class StubTensor(NamedTuple):
    string: Any
    coeff: Any


class StubPauli:
    _pydv_model = True

    def __init__(self, qpt):
        self.qubit_pauli_tensor = qpt


def stub_string(ex, a, k):
    return ex.construct(StubString, a, k)


def stub_tensor(ex, a, k):
    return ex.construct(StubTensor, a, k)


def stub_pauli(ex, a, k):
    return ex.construct(StubPauli, a, k)


MODELS[QubitPauliString], MODELS[QubitPauliTensor], MODELS[QermitPauli] = stub_string, stub_tensor, stub_pauli


@P.contract(dist=DictOf(NTOf(StubError, Int(0), Bool(), Bool(), Bool()), Real(0, 1), max=4))
def best_check(dist):
    # follows from the probabilities adding up to at most one
    require(sum(p for e, p in dist.items() if e.x) <= 1)
    out = OptimalPauliSampler(noise_model=StubNoise(dist), n_checks=1).sample(circ=StubCircuit(1))
    s = out[0].qubit_pauli_tensor.string
    missed = sum(p for e, p in dist.items() if e.commutes_with(s))
    ensure("one check, not the identity", len(out) == 1 and s.map[Qubit(0)] != Pauli.I)
    ensure("no check misses fewer errors", missed <= sum(p for e, p in dist.items() if e.x) and missed <= sum(p for e, p in dist.items() if e.y) and missed <= sum(p for e, p in dist.items() if e.z))


# ---- bounded
P.functions += [BX + f for f in ("BoxClifford", "_box_clifford_transform", "_circuit_to_graph", "_give_nodes_subdag", "_get_sub_circuit_qubits", "_can_implement")]
P.functions += [SD + "get_monochromatic_convex_subdag", CM + "gen_coherent_pauli_check_mitres"]
P.functions += [PS + f for f in ("PauliSampler.add_pauli_checks_to_circbox", "PauliSampler._decompose_clifford_subcircuit_box", "DeterministicZPauliSampler.sample",
                                 "DeterministicXPauliSampler.sample", "RandomPauliSampler.sample")]


def contracted(edges, lab):
    q = nx.DiGraph()
    q.add_nodes_from(("s", s) for s in lab.values())
    q.add_edges_from((a, b) for a, b in ((("s", lab[x]) if x in lab else ("n", x), ("s", lab[y]) if y in lab else ("n", y)) for x, y in edges) if a != b)
    return q


def check_subdags(n, edges, coloured):
    dag = nx.DiGraph()
    dag.add_nodes_from(range(n))
    dag.add_edges_from(edges)
    lab = get_monochromatic_convex_subdag(dag, list(coloured))
    det = (n, edges, coloured, lab)
    ensure("exactly the coloured nodes are in a sub-DAG", sorted(lab) == sorted(coloured), det)
    ensure("the sub-DAGs can be run one after another", nx.is_directed_acyclic_graph(contracted(edges, lab)), det)
    for a, b in itertools.combinations(sorted(set(lab.values())), 2):
        both = {x: a if s == b else s for x, s in lab.items()}
        ensure("no two sub-DAGs could be one", not nx.is_directed_acyclic_graph(contracted(edges, both)), det + ((a, b),))
    full = _give_nodes_subdag(dag=dag, node_subdag=lab)
    ensure("every node in one sub-DAG, others on their own", all((full[x] == full[y]) == (x in lab and y in lab and lab[x] == lab[y]) for x in range(n) for y in range(n) if x != y), (det, full))


@P.harness(runs=64)
def small_dags(r, i):
    """every graph of up to four nodes, every colouring"""
    for n in range(1, 5):
        pairs = list(itertools.combinations(range(n), 2))
        if i >= 2 ** len(pairs):
            continue
        edges = [p for j, p in enumerate(pairs) if i >> j & 1]
        for cs in itertools.product([0, 1], repeat=n):
            col = [x for x in range(n) if cs[x]]
            check_subdags(n, edges, col)
            check_subdags(n, edges, col[::-1])


@P.harness(runs=1500)
def random_dags(r, i):
    n = r.randint(5, 10 if i % 5 else 28)
    p = r.choice([0.1, 0.2, 0.3]) if n < 12 else r.choice([0.05, 0.1])
    edges = [e for e in itertools.combinations(range(n), 2) if r.random() < p]
    col = [x for x in range(n) if r.random() < 0.7]
    if i % 2:
        r.shuffle(col)
    check_subdags(n, edges, col)


def rand_boxable(r, qs, bits, depth, classical=True, t=0.3):
    """Clifford and other gates, measurements, resets, conditions, barriers, permutations, phase"""
    c = Circuit()
    for q in qs:
        c.add_qubit(q)
    for b in bits:
        c.add_bit(b)
    for k in range(depth):
        x, q = r.random(), r.choice(qs)
        if x < t:
            y = r.random()
            if y < 0.4 or len(qs) == 1:
                c.T(q, **({"opgroup": f"t{k}"} if r.random() < 0.3 else {}))
            elif y < 0.6:
                c.Rz(r.choice([0.5, 0.25, -0.5, 1.5]), q)
            elif y < 0.75:
                c.PhasedX(r.choice([0.5, 0.3]), r.choice([0.5, 0.1]), q)
            else:
                c.ZZPhase(0.3, *r.sample(qs, 2))
        elif x < t + 0.12 and classical and bits:
            y = r.random()
            if y < 0.4:
                c.Measure(q, r.choice(bits))
            elif y < 0.9:
                getattr(c, r.choice(["X", "H", "T"]))(q, condition_bits=[r.choice(bits)], condition_value=r.randint(0, 1))
            else:
                c.Reset(q)
        elif x < t + 0.17:
            c.add_barrier(r.sample(qs, r.randint(1, len(qs))) + (r.sample(bits, 1) if bits and r.random() < 0.3 else []), **({"data": "note"} if r.random() < 0.3 else {}))
        elif len(qs) > 1 and x < 0.75:
            getattr(c, r.choice(["CX", "CZ", "CX", "CY", "SWAP"]))(*r.sample(qs, 2))
        else:
            getattr(c, r.choice(CLIFF1))(q, **({"opgroup": f"c{k}"} if r.random() < 0.2 else {}))
    if r.random() < 0.3:
        c.add_phase(r.choice([0.5, 0.3]))
    if len(qs) > 1 and r.random() < 0.25:
        c.SWAP(*r.sample(qs, 2))
        c.replace_SWAPs()
    return c


def rand_bits(r, n):
    out = [r.choice([Bit(0), Bit("b", 0), Bit("z", 3)])] if n else []
    while len(out) < n:
        b = Bit(r.choice(["c", "b", "m"]), r.randint(0, 4))
        if b not in out:
            out.append(b)
    return out


def rebuild(c, change=lambda cmd: cmd.op.get_circuit()):
    """circuit with its boxes opened (after `change`), permutations as swaps"""
    c = c.copy()
    c.replace_implicit_wire_swaps()
    out = Circuit()
    for q in c.qubits:
        out.add_qubit(q)
    for b in c.bits:
        out.add_bit(b)
    out.add_phase(c.phase)
    for cmd in c.get_commands():
        if cmd.op.type == OpType.CircBox:
            inner = change(cmd)
            inner.replace_implicit_wire_swaps()
            m = dict(zip(inner.qubits, cmd.args))
            for x in inner.get_commands():
                out.add_gate(x.op, [m[q] for q in x.args]) if x.op.type != OpType.Barrier else None
            out.add_phase(inner.phase)
        elif cmd.op.type == OpType.Barrier:
            out.add_barrier(cmd.args)
        else:
            out.add_gate(cmd.op, cmd.args)
    return out


def groups(c, inside=True):
    """labelled gates, with those in boxes"""
    out = Counter()
    for cmd in c.get_commands():
        if cmd.opgroup is not None:
            out[cmd.opgroup] += 1
        if inside and cmd.op.type == OpType.CircBox:
            out += groups(cmd.op.get_circuit())
    return out


@P.harness(runs=3000)
def boxing(r, i):
    """boxing Clifford subcircuits does not change what a circuit does"""
    qs = rand_qubits(r, r.randint(1, 4))
    bits = rand_bits(r, r.randint(0, 3))
    c = rand_boxable(r, qs, bits, r.randint(0, 14), classical=i % 3 > 0)
    log(c.get_commands(), c.implicit_qubit_permutation(), c.phase)
    b = c.copy()
    BoxClifford().apply(b)
    log([(x, x.op.get_circuit().get_commands() if x.op.type == OpType.CircBox else "") for x in b.get_commands()])
    ensure("same qubits and bits", b.qubits == c.qubits and b.bits == c.bits)
    if i % 3 == 0:
        ensure("same unitary", np.allclose(unitary(rebuild(b), qs), unitary(c, qs)))
    else:
        ensure("same outcomes and states", same_outcomes(outcomes(rebuild(b), qs, bits), outcomes(rebuild(c), qs, bits)))
    ensure("labels kept", groups(b) == groups(c))
    ensure("barriers kept", Counter(x.op.data for x in b.get_commands() if x.op.type == OpType.Barrier) == Counter(x.op.data for x in c.get_commands() if x.op.type == OpType.Barrier))
    for cmd in b.get_commands():
        if cmd.op.type == OpType.CircBox:
            inner = cmd.op.get_circuit()
            ensure("boxes are named, quantum and not empty", inner.name == "Clifford Subcircuit" and not inner.bits and inner.n_gates > 0)
            ensure("boxes hold Clifford gates only", all(x.op.is_clifford() for x in inner.get_commands()), inner.get_commands())
            ensure("boxes are on the qubits their gates act on", len(cmd.args) == len({q for x in inner.get_commands() for q in x.qubits}))
        else:
            ensure("no Clifford gate left out of a box", cmd.op.type in (OpType.Measure, OpType.Reset, OpType.Barrier) or not cmd.op.is_clifford_type(), cmd)


@P.harness(runs=250)
def boxing_long(r, i):
    """long circuits can be boxed, and keep their commands in order on every wire"""
    n = r.randint(5, 10)
    c = Circuit(n)
    t = r.choice([0.1, 0.2, 0.3])
    for _ in range(r.randint(40, 90)):
        x = r.random()
        if x < t:
            c.T(r.randrange(n)) if r.random() < 0.5 else c.ZZPhase(0.3, *r.sample(range(n), 2))
        elif x < 0.6:
            c.H(r.randrange(n))
        else:
            c.CX(*r.sample(range(n), 2))
    log(c.get_commands())
    b = c.copy()
    BoxClifford().apply(b)

    def wires(circ):
        out = {}
        for cmd in rebuild(circ).get_commands():
            for q in cmd.args:
                out.setdefault(q, []).append((cmd.op, tuple(cmd.args)))
        return out

    ensure("same commands on every wire", wires(b) == wires(c))


class Fixed(PauliSampler):
    """given checks, one list per box"""

    def __init__(self, paulis):
        self.paulis, self.seen = list(paulis), []

    def sample(self, circ):
        self.seen.append(circ)
        qs = circ.qubits
        return [QermitPauli(QubitPauliTensor(string=QubitPauliString(dict(zip(qs, p))), coeff=1)) for p in self.paulis[len(self.seen) - 1]]


PAULIS = [Pauli.I, Pauli.X, Pauli.Y, Pauli.Z]


def strings(r, n, k):
    return [tuple(r.choice(PAULIS) for _ in range(n)) for _ in range(k)]


def rand_boxes(r, qs, bits):
    """circuit with named Clifford boxes, and the checks to be used in them"""
    c = Circuit()
    for q in qs:
        c.add_qubit(q)
    for b in bits:
        c.add_bit(b)
    checks = {}
    for k in range(r.randint(1, 4)):
        x = r.random()
        if x < 0.5 and len(checks) < 2:
            n = r.randint(1, len(qs))
            inner = rand_clifford(r, [Qubit(j) for j in range(n)], depth=r.randint(1, 6))
            if n > 1 and r.random() < 0.3:
                inner.SWAP(0, 1)
                inner.replace_SWAPs()
            inner.name = "Clifford Subcircuit" + (f" {k}" if checks or r.random() < 0.2 else "")
            where = r.sample(qs, n)
            c.add_circbox(CircBox(inner), where, **({"opgroup": f"box{k}"} if r.random() < 0.2 else {}))
            checks[k] = n
        elif x < 0.65:
            c.add_circbox(CircBox(rand_clifford(r, [Qubit(0)], depth=2)), [r.choice(qs)])
        elif x < 0.8:
            c.T(r.choice(qs), **({"opgroup": f"t{k}"} if r.random() < 0.4 else {}))
        elif x < 0.9:
            c.add_barrier(r.sample(qs, r.randint(1, len(qs))) + (bits[:1] if r.random() < 0.4 else []), **({"data": "note"} if r.random() < 0.5 else {}))
        elif bits:
            c.X(r.choice(qs), condition_bits=[bits[0]], condition_value=0)
    if r.random() < 0.3:
        c.add_phase(0.3)
    if len(qs) > 1 and r.random() < 0.3:
        c.SWAP(*r.sample(qs, 2))
        c.replace_SWAPs()
    return c


def named(cmd):
    return cmd.op.type == OpType.CircBox and (cmd.op.get_circuit().name or "").startswith("Clifford Subcircuit")


@P.harness(runs=2500)
def checking(r, i):
    """checks change nothing on a noiseless device, and find exactly the errors that anticommute with them"""
    qs = rand_qubits(r, r.randint(1, 3))
    bits = rand_bits(r, r.randint(0, 2))
    c = rand_boxes(r, qs, bits)
    plain = c.copy()
    plain.replace_implicit_wire_swaps()
    boxes = [cmd for cmd in plain.get_commands() if named(cmd)]
    checks = [strings(r, len(b.args), r.randint(1, 2) if len(boxes) < 2 else 1) for b in boxes]
    n_checks = sum(map(len, checks))
    sampler = Fixed(checks)
    before = c.copy()
    log(c.get_commands(), [(b, b.op.get_circuit().get_commands()) for b in boxes], checks)
    out, anc_bits = sampler.add_pauli_checks_to_circbox(circuit=c)
    log(out.get_commands())
    ensure("circuit given unchanged", c == before)
    ensure("checks sampled once for every Clifford subcircuit", len(sampler.seen) == len(boxes))
    for s, b in zip(sampler.seen, boxes):
        ensure("for the qubits of that subcircuit", sorted(s.qubits) == sorted(b.args), (s.qubits, b))
    ensure("one bit more for every check", set(out.bits) == set(bits) | set(anc_bits) and len(anc_bits) == n_checks and not set(bits) & set(anc_bits))
    anc = [q for q in out.qubits if q not in qs]
    ensure("one qubit more for every check", set(qs) <= set(out.qubits) and len(anc) == n_checks)
    ensure("labels kept", all(groups(out, False)[g] == k for g, k in groups(c, False).items()))
    ensure("barriers kept", [x.op.data for x in out.get_commands() if x.op.type == OpType.Barrier].count("note") == [x.op.data for x in c.get_commands() if x.op.type == OpType.Barrier].count("note"))
    anc_bits = sorted(anc_bits)
    base = outcomes(rebuild(c), qs, bits)
    got = outcomes(rebuild(out), qs + anc, bits + anc_bits)
    zero = (0,) * len(anc_bits)
    ensure("checks pass without noise", all(k[len(bits):] == zero for k in got), list(got))
    d, m = 2 ** len(qs), 2 ** len(anc)
    proj = {k[:len(bits)]: v.reshape(d, m, d, m)[:, 0, :, 0] for k, v in got.items()}
    ensure("same outcomes and states", same_outcomes(proj, base))
    if not boxes:
        return
    # an error inside one of the boxes
    j = r.randrange(len(boxes))
    inner = boxes[j].op.get_circuit()
    inner.replace_implicit_wire_swaps()
    cmds = inner.get_commands()
    at, e = r.randint(0, len(cmds)), tuple(r.choice(PAULIS) for _ in inner.qubits)
    gate = {Pauli.X: OpType.X, Pauli.Y: OpType.Y, Pauli.Z: OpType.Z}
    noisy, head = Circuit(), Circuit()
    for q in inner.qubits:
        noisy.add_qubit(q)
        head.add_qubit(q)
    for k in range(len(cmds) + 1):
        if k == at:
            for q, p in zip(inner.qubits, e):
                if p != Pauli.I:
                    noisy.add_gate(gate[p], [q])
        if k < len(cmds):
            noisy.add_gate(cmds[k].op, cmds[k].args)
            if k < at:
                head.add_gate(cmds[k].op, cmds[k].args)

    def change(cmd):
        return noisy.copy() if named(cmd) and cmd.op.get_circuit().name == inner.name else cmd.op.get_circuit()

    got = outcomes(rebuild(out, change), qs + anc, bits + anc_bits)
    erred = outcomes(rebuild(plain, change), qs, bits)
    u, em = unitary(head), np.array([[1]])
    for p in e:
        em = np.kron(em, PM[p])
    pre = u.conj().T @ em @ u
    log("error", e, "at", at, "of box", j)
    found = []
    for b, box in enumerate(boxes):
        for s in checks[b]:
            sm = np.array([[1]])
            # the string is on the qubits of the subcircuit as the sampler saw them
            where = dict(zip(sampler.seen[b].qubits, s))
            for q in box.args:
                sm = np.kron(sm, PM[where[q]])
            found.append(int(b == j and not np.allclose(sm @ pre, pre @ sm)))
    key = {k[len(bits):] for k in got}
    ensure("every shot reads the same", len(key) == 1, key)
    ensure("an error is found by the checks it anticommutes with", sorted(key.pop()) == sorted(found), found)
    if not any(found):
        proj = {k[:len(bits)]: v.reshape(d, m, d, m)[:, 0, :, 0] for k, v in got.items()}
        ensure("errors that are not found stay as they are", same_outcomes(proj, erred))


@P.harness(runs=300)
def samplers(r, i):
    qs = rand_qubits(r, r.randint(1, 3))
    c = rand_clifford(r, qs)
    for cls, p in ((DeterministicZPauliSampler, Pauli.Z), (DeterministicXPauliSampler, Pauli.X)):
        out = cls().sample(circ=c)
        ensure("one check, the same Pauli on every qubit", [x.qubit_pauli_tensor for x in out] == [QubitPauliTensor(string=QubitPauliString({q: p for q in qs}), coeff=1)])
    n, seed = r.randint(0, 4), r.randrange(10 ** 6)
    a = RandomPauliSampler(n_checks=n, rng=np.random.default_rng(seed)).sample(circ=c)
    b = RandomPauliSampler(n_checks=n, rng=np.random.default_rng(seed)).sample(circ=c)
    ensure("as many checks as asked for", len(a) == n)
    ensure("checks are not the identity, and on the circuit's qubits", all(set(x.qubit_pauli_tensor.string.map) <= set(qs) and any(p != Pauli.I for p in x.qubit_pauli_tensor.string.map.values()) and x.qubit_pauli_tensor.coeff == 1 for x in a))
    ensure("determined by the generator", a == b)
    one = c.qubits[:1]
    c1 = Circuit()
    c1.add_qubit(one[0])
    many = RandomPauliSampler(n_checks=60, rng=np.random.default_rng(seed)).sample(circ=c1)
    ensure("every Pauli occurs", {x.qubit_pauli_tensor.string.map.get(one[0]) for x in many} == {Pauli.X, Pauli.Y, Pauli.Z})
    # optimal
    if len(qs) == 3:
        qs = qs[:2]
        c = rand_clifford(r, qs)
    n = r.randint(1, 2) if len(qs) == 2 else r.randint(1, 3)
    errs = [e for e in itertools.product(PAULIS, repeat=len(qs)) if any(p != Pauli.I for p in e)]
    errs = r.sample(errs, r.randint(1, min(5, len(errs))))
    w = [r.choice([0.02, 0.05, 0.1, 0.15, 0.2]) for _ in errs]
    dist = {QubitPauliString(dict(zip(qs, e))): x for e, x in zip(errs, w)}
    noise = StubNoise(dist)
    out = OptimalPauliSampler(noise_model=noise, n_checks=n).sample(circ=c)
    ensure("errors of the circuit asked for", len(noise.asked) == 1 and noise.asked[0] == c)

    def missed(checks):
        return sum(x for e, x in dist.items() if all(e.commutes_with(s) for s in checks))

    every = [QubitPauliString(dict(zip(qs, e))) for e in itertools.product(PAULIS, repeat=len(qs)) if any(p != Pauli.I for p in e)]
    best = min(missed(s) for s in itertools.combinations(every, n))
    got = [x.qubit_pauli_tensor.string for x in out]
    ensure("as many different checks as asked for", len(set(got)) == n == len(got) and all(x.qubit_pauli_tensor.coeff == 1 for x in out) and all(any(p != Pauli.I for p in s.map.values()) for s in got))
    ensure("no other checks miss fewer errors", missed(got) <= best + 1e-9, (got, best, dist))


@P.harness(runs=800)
def pipeline(r, i):
    """results are those of the shots whose checks all pass, in the bits of each circuit"""
    exact = i % 2 == 0
    wires = []
    for _ in range(r.randint(1, 3)):
        qs = rand_qubits(r, r.randint(1, 3))
        bits = rand_bits(r, len(qs))
        c = rand_boxable(r, qs, [], r.randint(1, 8), classical=False)
        c.replace_implicit_wire_swaps()
        for b in bits:
            c.add_bit(b)
        for q, b in zip(qs, bits):
            c.Measure(q, b)
        wires.append(CircuitShots(Circuit=c, Shots=r.randint(1, 40)))
    before = [w.Circuit.copy() for w in wires]
    log([w.Circuit.get_commands() for w in wires])
    if exact:
        backend = exact_backend()
    else:
        backend = FakeBackend(lambda c, s, k: shots_result(rand_table(r, s, len(c.bits)), c.bits))
    sampler = r.choice([DeterministicXPauliSampler(), DeterministicZPauliSampler(), RandomPauliSampler(1, np.random.default_rng(r.randrange(99)))])
    out = gen_coherent_pauli_check_mitres(backend=backend, pauli_sampler=sampler).run([CircuitShots(Circuit=w.Circuit, Shots=w.Shots) for w in wires])
    ensure("one result per circuit", len(out) == len(wires) == len(backend.jobs))
    ensure("own shots", [s for _, s in backend.jobs] == [w.Shots for w in wires])
    ensure("circuits given unchanged", [w.Circuit for w in wires] == before)
    for w, res, (c, s) in zip(wires, out, backend.jobs):
        ensure("no boxes are sent to the device", not any(x.op.type == OpType.CircBox for x in c.get_commands()))
        bits, anc = list(w.Circuit.bits), [b for b in c.bits if b not in w.Circuit.bits]
        ensure("the circuit's own bits", set(bits) <= set(c.bits))
        if exact:
            ensure("noiseless results unchanged", counts_of(res, bits) == exact_counts(distribution(w.Circuit, bits)), counts_of(res, bits))
        else:
            given = backend.results[("job", [j for j, (x, _) in enumerate(backend.jobs) if x is c][0])]
            want = Counter()
            for row, k in counts_of(given, bits + anc).items():
                if not any(row[len(bits):]):
                    want[row[:len(bits)]] += k
            ensure("shots whose checks pass", (counts_of(res, bits) if want else {}) == dict(want))
