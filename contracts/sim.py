"""Reference simulator (numpy) used as oracle by the bounded harnesses."""
import numpy as np
from pytket import Circuit, Bit, Qubit, OpType
from pytket.pauli import Pauli, QubitPauliString

PM = {Pauli.I: np.eye(2), Pauli.X: np.array([[0, 1], [1, 0]]), Pauli.Y: np.array([[0, -1j], [1j, 0]]), Pauli.Z: np.diag([1, -1])}
SKIP = (OpType.Barrier, OpType.Measure, OpType.noop, OpType.Phase)
BOXES = (OpType.CircBox,)


def flat(circ):
    """(op, qubits, bits) of a circuit with circuit boxes opened"""
    for cmd in circ.get_commands():
        op = cmd.op
        if op.type in BOXES or isinstance_box(op):
            inner = op.get_circuit()
            assert all(a == b for a, b in inner.implicit_qubit_permutation().items())
            qm = dict(zip(inner.qubits, cmd.qubits))
            bm = dict(zip(inner.bits, cmd.bits))
            for o, q, b in flat(inner):
                yield o, [qm[x] for x in q], [bm[x] for x in b]
        else:
            yield op, list(cmd.qubits), list(cmd.bits)


def isinstance_box(op):
    return hasattr(op, "get_circuit") and op.type not in (OpType.Barrier,)


def apply(state, u, where):
    """state: tensor of shape (2,)*n ; u acts on axes `where`"""
    m = len(where)
    u = np.asarray(u).reshape((2,) * (2 * m))
    s = np.tensordot(u, state, axes=(list(range(m, 2 * m)), list(where)))
    return np.moveaxis(s, list(range(m)), list(where))


def run_state(circ, qubits=None, init=None, permute=True):
    """state before measurement as a tensor over `qubits` (default: circ.qubits); Reset is refused;
    axes are output qubits, or, without `permute`, the wires named as in the commands"""
    qubits = list(qubits or circ.qubits)
    pos = {q: k for k, q in enumerate(qubits)}
    s = np.zeros((2,) * len(qubits), complex)
    s[(0,) * len(qubits)] = 1
    if init is not None:
        s = init
    for op, qs, _ in flat(circ):
        if op.type in SKIP:
            continue
        s = apply(s, op.get_unitary(), [pos[q] for q in qs])
    if permute:
        moved = [(a, b) for a, b in circ.implicit_qubit_permutation().items() if a != b]
        s = np.moveaxis(s, [pos[a] for a, _ in moved], [pos[b] for _, b in moved])
    return s * np.exp(1j * np.pi * float(circ.phase))


def pauli_apply(s, qps, pos):
    for q, p in qps.map.items():
        if p != Pauli.I:
            s = apply(s, PM[p], [pos[q]])
    return s


def expval(circ, qps):
    qs = list(circ.qubits)
    pos = {q: k for k, q in enumerate(qs)}
    s = run_state(circ, qs)
    return float(np.real(np.vdot(s, pauli_apply(s, qps, pos))))


def measures(circ):
    """bit -> measured qubit (terminal measurements only)"""
    out, done = {}, set()
    for op, qs, bs in flat(circ):
        if op.type == OpType.Measure:
            out[bs[0]] = qs[0]
            done.add(qs[0])
        elif op.type not in SKIP:
            assert not done & set(qs), "gate after measurement"
    return out


def distribution(circ, bits=None):
    """exact distribution of the classical bits: {tuple over bits: p}"""
    bits = list(bits or circ.bits)
    qs = list(circ.qubits)
    pos = {q: k for k, q in enumerate(qs)}
    pr = np.abs(run_state(circ, qs, permute=False)) ** 2
    m = measures(circ)
    out = {}
    for idx in np.argwhere(pr > 1e-12):
        key = tuple(int(idx[pos[m[b]]]) if b in m else 0 for b in bits)
        out[key] = out.get(key, 0.0) + float(pr[tuple(idx)])
    return out


def exact_counts(dist, n=1 << 20):
    """integer counts proportional to a distribution (exact when its probabilities are multiples of 1/n)"""
    return {k: int(round(p * n)) for k, p in dist.items() if round(p * n)}


def unitary(circ, qubits=None):
    qubits = list(qubits or circ.qubits)
    n = len(qubits)
    cols = []
    for k in range(2 ** n):
        e = np.zeros(2 ** n, complex)
        e[k] = 1
        cols.append(run_state(circ, qubits, e.reshape((2,) * n)).reshape(-1))
    return np.array(cols).T


def same_up_to_phase(a, b, tol=1e-7):
    a, b = np.asarray(a), np.asarray(b)
    if a.shape != b.shape:
        return False
    k = np.vdot(a.reshape(-1), b.reshape(-1))
    if abs(k) < 1e-9:
        return False
    return np.allclose(a * (k / abs(k)), b, atol=tol)


# ------------------------------------------------------------------ random circuits
CLIFF1 = ["H", "S", "Sdg", "X", "Y", "Z", "V", "Vdg"]
CLIFF2 = ["CX", "CZ", "CY", "SWAP"]


def rand_qubits(r, n):
    k = r.random()
    if k < 0.6:
        return [Qubit(j) for j in range(n)]
    if k < 0.8:
        return [Qubit("a", j) for j in range(n)]
    return [Qubit("q", 2 * j + 1) for j in range(n)] if n == 1 or k < 0.9 else [Qubit("a", 0)] + [Qubit(j) for j in range(n - 1)]


def rand_clifford(r, qubits, depth=None, names1=CLIFF1, names2=CLIFF2):
    c = Circuit()
    for q in qubits:
        c.add_qubit(q)
    for _ in range(r.randint(0, 8) if depth is None else depth):
        if len(qubits) > 1 and r.random() < 0.45:
            getattr(c, r.choice(names2))(*r.sample(list(qubits), 2))
        else:
            getattr(c, r.choice(names1))(r.choice(list(qubits)))
    return c


def rand_circuit(r, qubits, depth=None):
    c = Circuit()
    for q in qubits:
        c.add_qubit(q)
    for _ in range(r.randint(0, 8) if depth is None else depth):
        k = r.random()
        if len(qubits) > 1 and k < 0.35:
            a = r.sample(list(qubits), 2)
            if k < 0.25:
                c.CX(*a)
            else:
                c.ZZPhase(r.uniform(-2, 2), *a)
        elif k < 0.6:
            getattr(c, r.choice(CLIFF1))(r.choice(list(qubits)))
        else:
            getattr(c, r.choice(["Rx", "Ry", "Rz"]))(r.choice([0.5, 1.0, 0.25, r.uniform(-2, 2)]), r.choice(list(qubits)))
    return c


def rand_string(r, qubits, identity=True, full=False):
    while True:
        m = {}
        for q in qubits:
            p = r.choice([Pauli.I, Pauli.X, Pauli.Y, Pauli.Z])
            if p != Pauli.I or full or r.random() < 0.2:
                m[q] = p
        if identity or any(p != Pauli.I for p in m.values()):
            return QubitPauliString(m)


def outcomes(circ, qubits, bits):
    """mid-circuit measurements, resets and conditions included: {values of the bits: sum of density matrices over `qubits`}"""
    pos = {q: k for k, q in enumerate(qubits)}
    n = len(qubits)
    s0 = np.zeros((2,) * n, complex)
    s0[(0,) * n] = 1
    branches = [({b: 0 for b in bits}, s0)]

    def split(s, k):
        out = []
        for v in (0, 1):
            t = np.zeros_like(s)
            ix = [slice(None)] * n
            ix[k] = v
            t[tuple(ix)] = s[tuple(ix)]
            if np.linalg.norm(t) > 1e-9:
                out.append((v, t))
        return out

    for cmd in circ.get_commands():
        op, args, nxt = cmd.op, list(cmd.args), []
        for vals, s in branches:
            o, a = op, args
            if o.type == OpType.Conditional:
                got = sum(vals[b] << j for j, b in enumerate(a[:o.width]))
                if got != o.value:
                    nxt.append((vals, s))
                    continue
                o, a = o.op, a[o.width:]
            if o.type == OpType.Measure:
                nxt += [({**vals, a[1]: v}, t) for v, t in split(s, pos[a[0]])]
            elif o.type == OpType.Reset:
                nxt += [(vals, apply(t, PM[Pauli.X], [pos[a[0]]]) if v else t) for v, t in split(s, pos[a[0]])]
            elif o.type in SKIP:
                nxt.append((vals, s))
            else:
                nxt.append((vals, apply(s, o.get_unitary(), [pos[q] for q in a])))
        branches = nxt
    out = {}
    for vals, s in branches:
        v = s.reshape(-1)
        key = tuple(vals[b] for b in bits)
        out[key] = out.get(key, 0) + np.outer(v, v.conj())
    return out


def same_outcomes(a, b, tol=1e-7):
    z = np.zeros_like(next(iter(a.values()))) if a else 0
    return all(np.allclose(a.get(k, z), b.get(k, z), atol=tol) for k in set(a) | set(b))
