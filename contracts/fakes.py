"""Recording stand-ins for devices, used by the bounded harnesses."""
import numpy as np
from collections import Counter
from pytket import Circuit, Bit, Qubit
from pytket.backends.backendresult import BackendResult
from pytket.utils.outcomearray import OutcomeArray


MARK = " (compiled)"


class FakeBackend:
    """runs nothing: `answer(circuit, shots, k)` supplies the result of the k-th job"""

    def __init__(self, answer, compile=None):
        self.answer, self.compile = answer, compile
        self.jobs, self.results, self.batches, self.options = [], {}, [], []
        self.backend_info = None

    def process_circuits(self, circuits, n_shots=None, **kw):
        circuits = list(circuits)
        shots = [n_shots] * len(circuits) if not isinstance(n_shots, (list, tuple)) else list(n_shots)
        assert len(shots) == len(circuits)
        self.batches.append(len(circuits))
        self.options.append(kw)
        hs = []
        for c, s in zip(circuits, shots):
            h = ("job", len(self.jobs))
            self.jobs.append((c, s))
            self.results[h] = self.answer(c, s, h[1])
            hs.append(h)
        return hs

    def process_circuit(self, circuit, n_shots=None, **kw):
        return self.process_circuits([circuit], n_shots, **kw)[0]

    def get_results(self, handles, **kw):
        return [self.results[h] for h in handles]

    def get_result(self, handle, **kw):
        return self.results[handle]

    def run_circuit(self, circuit, n_shots=None, **kw):
        return self.get_result(self.process_circuit(circuit, n_shots, **kw))

    def run_circuits(self, circuits, n_shots=None, **kw):
        return self.get_results(self.process_circuits(circuits, n_shots, **kw))

    def get_compiled_circuit(self, circuit, optimisation_level=2):
        if self.compile:
            return self.compile(circuit, optimisation_level)
        c = circuit.copy()
        c.name = (c.name or "").removesuffix(MARK) + MARK
        return c

    def all_compiled(self):
        return all((c.name or "").endswith(MARK) for c, _ in self.jobs)

    def get_compiled_circuits(self, circuits, optimisation_level=2):
        return [self.get_compiled_circuit(c, optimisation_level) for c in circuits]

    def rebase_pass(self):
        from pytket.passes import AutoRebase
        from pytket import OpType

        return AutoRebase({OpType.CX, OpType.TK1})

    def default_compilation_pass(self, optimisation_level=2):
        return self.rebase_pass()


def shots_result(table, bits):
    """result whose column j holds bits[j]"""
    a = np.array(table, dtype=np.uint8).reshape(len(table), len(bits))
    return BackendResult(shots=OutcomeArray.from_readouts(a), c_bits=list(bits))


def counts_result(counts, bits):
    return BackendResult(counts=Counter({OutcomeArray.from_readouts([k]): v for k, v in counts.items()}), c_bits=list(bits))


def rand_table(r, shots, n):
    return [[r.randint(0, 1) for _ in range(n)] for _ in range(shots)]


def all_columns(res, bits):
    """shots of a result in the order of `bits`"""
    return [tuple(int(x) for x in row) for row in res.get_shots(cbits=list(bits))]


def counts_of(res, bits):
    return {tuple(int(x) for x in k): int(v) for k, v in res.get_counts(cbits=list(bits)).items() if v}


def exact_backend(n=1 << 20, **kw):
    """noiseless device whose counts are exactly proportional to the outcome distribution"""
    from contracts.sim import distribution, exact_counts

    return FakeBackend(lambda c, s, k: counts_result(exact_counts(distribution(c), n), c.bits), **kw)


def _expval(c, s):
    from contracts.sim import expval

    return expval(c, s)


class ExactBackend(FakeBackend):
    """exact expectation values"""
    supports_expectation = True
    expectation_allows_nonhermitian = True
    supports_state = False
    supports_shots = False
    supports_counts = True

    def __init__(self, lam=None):
        self.lam, self.ran = lam, []
        super().__init__(self.answer_)

    def valid_circuit(self, c):
        return True

    def get_operator_expectation_value(self, c, op, **kw):
        return sum(complex(v) * _expval(c, s) for s, v in op._dict.items())

    def get_pauli_expectation_value(self, c, s, **kw):
        return _expval(c, s)

    def answer_(self, c, s, k):
        self.ran.append((c.copy(), s))
        from contracts.sim import distribution, exact_counts

        d, n = distribution(c), len(c.bits)
        lam = self.lam(c) if self.lam else 0.0
        out = {}
        for key in np.ndindex(*(2,) * n):
            out[tuple(key)] = lam / 2 ** n + (1 - lam) * d.get(tuple(key), 0.0)
        return counts_result(exact_counts(out, 1 << 40), c.bits)
