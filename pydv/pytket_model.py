"""Assumed contracts on pytket and sympy objects (listed in the evidence as trusted)."""
from .values import *  # noqa
from .values import z3
from .ex import MODELS, METHODS, ATTRS, CLASSES
from pytket.utils import operators as _ops
from pytket.utils import QubitPauliOperator


def assumed(text):
    def deco(f):
        def g(ex, a, k):
            ex.trusted.add(text)
            ex.inexact = True  # a refutation is relative to this contract
            return f(ex, a, k)

        return g

    return deco


@assumed("sympy coefficients behave as real numbers (pytket _coeff_convert is the identity)")
def _coeff(ex, a, k):
    return ex.num(a[0])


MODELS[_ops._coeff_convert] = _coeff


@assumed("QubitPauliOperator._collect_qubits only sets _all_qubits")
def _collect(ex, a, k):
    ex.setattr(a[0], "_all_qubits", Opq(ex.skolem("allq", U), "QubitSet"))
    return None


MODELS[QubitPauliOperator._collect_qubits] = _collect


@assumed("Circuit.copy returns an equal circuit (circuits that are opaque are never modified)")
def _circuit_copy(ex, a, k):
    return a[0]


METHODS[("Circuit", "copy")] = lambda ex, v, a, k: _circuit_copy(ex, [v], {})
METHODS[("QubitSet", "update")] = lambda ex, v, a, k: None


@assumed("the qubits of a Pauli string are a function of the string")
def _map(ex, a, k):
    return Opq(ex.fterm("qps_map", [ex.term(a[0])]), "QpsMap")


ATTRS[("QubitPauliString", "map")] = lambda ex, v: _map(ex, [v], {})
METHODS[("QpsMap", "keys")] = lambda ex, v, a, k: v
METHODS[("QpsMap", "items")] = lambda ex, v, a, k: v


@assumed("BackendResult.get_counts is a function of the result and the bits")
def _counts(ex, a, k):
    return Opq(ex.fterm("get_counts", [ex.term(x) for x in a]), "Counts")


METHODS[("Result", "get_counts")] = lambda ex, v, a, k: _counts(ex, [v] + list(a), k)


@assumed("expectation_from_counts is a real function of the counts")
def _expect(ex, a, k):
    return ex.fterm("expectation_from_counts", [ex.term(a[0])], z3.RealSort())


from pytket.utils import expectation_from_counts  # noqa

MODELS[expectation_from_counts] = _expect


# ---- results: counts keyed by readouts, read in the order of the bits asked for
from pytket.backends.backendresult import BackendResult  # noqa
from pytket.utils.outcomearray import OutcomeArray  # noqa


class ModelResult:
    _pydv_model = True

    def __init__(self, counts=None, c_bits=None):
        self.counts, self.c_bits = counts, c_bits

    def get_counts(self, cbits=None):
        if self.counts is None:
            raise ValueError()
        if cbits is None or list(cbits) == list(self.c_bits):
            return self.counts
        where = [list(self.c_bits).index(b) for b in cbits]
        out = {}
        for key, n in self.counts.items():
            k = tuple(key[j] for j in where)
            out[k] = out.get(k, 0) + n
        return out


@assumed("BackendResult(counts of OutcomeArray readouts, c_bits).get_counts(cbits) sums the counts given by the bits asked for")
def _result(ex, a, k):
    return ex.construct(ModelResult, a, k)


MODELS[BackendResult] = _result


def _from_readouts(ex, a, k):
    s = ex.toseq(a[0])
    if len(s.parts) == 1 and isinstance(s.parts[0], Unit):
        return s.parts[0].v
    raise Unsupported("OutcomeArray of several readouts")


MODELS[OutcomeArray.from_readouts] = _from_readouts
MODELS[OutcomeArray.from_readouts.__func__] = lambda ex, a, k: _from_readouts(ex, a[1:], k)


# ---- circuits as the sequence of operations added to them
from pytket import Circuit, OpType  # noqa


class ModelCircuit:
    _pydv_model = True

    def __init__(self, n_qubits=0, n_bits=0, name=None):
        self.log = []
        if n_qubits or n_bits:
            self.log.append(("default registers", n_qubits, n_bits))

    def add_qubit(self, q, reject_dups=True):
        self.log.append(("qubit", q))
        return self

    def add_bit(self, b, reject_dups=True):
        self.log.append(("bit", b))
        return self

    def Measure(self, q, b):
        self.log.append(("Measure", q, b))
        return self

    def copy(self):
        c = ModelCircuit()
        c.log = list(self.log)
        return c

    def append(self, other):
        self.log.extend(other.log)

    def __eq__(self, other):
        return self.log == other.log

    def H(self, q):
        self.log.append(("H", q))
        return self

    def X(self, q):
        self.log.append(("X", q))
        return self

    def Y(self, q):
        self.log.append(("Y", q))
        return self

    def Z(self, q):
        self.log.append(("Z", q))
        return self

    def S(self, q):
        self.log.append(("S", q))
        return self

    def Sdg(self, q):
        self.log.append(("Sdg", q))
        return self

    def V(self, q):
        self.log.append(("V", q))
        return self

    def Vdg(self, q):
        self.log.append(("Vdg", q))
        return self

    def T(self, q):
        self.log.append(("T", q))
        return self

    def Tdg(self, q):
        self.log.append(("Tdg", q))
        return self

    def Reset(self, q):
        self.log.append(("Reset", q))
        return self

    def Rx(self, angle, q):
        self.log.append(("Rx", angle, q))
        return self

    def Ry(self, angle, q):
        self.log.append(("Ry", angle, q))
        return self

    def Rz(self, angle, q):
        self.log.append(("Rz", angle, q))
        return self

    def CX(self, a, b):
        self.log.append(("CX", a, b))
        return self

    def CY(self, a, b):
        self.log.append(("CY", a, b))
        return self

    def CZ(self, a, b):
        self.log.append(("CZ", a, b))
        return self

    def SWAP(self, a, b):
        self.log.append(("SWAP", a, b))
        return self


@assumed("circuits to which the same operations were added in the same order are equal")
def _circuit(ex, a, k):
    return ex.construct(ModelCircuit, a, k)


MODELS[Circuit] = _circuit
