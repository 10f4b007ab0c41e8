"""ObservableTracker and SymbolsDict: what is tracked, measured and substituted."""
from contracts.common import *  # noqa
from contracts.fakes import *  # noqa
from contracts.sim import *  # noqa
from sympy import Symbol
from pytket.utils import QubitPauliOperator, expectation_from_counts
from qermit import ObservableTracker, SymbolsDict
from qermit.taskgraph.utils import MeasurementCircuit

P = Prop("C04", ["qermit/taskgraph/utils.py:ObservableTracker.get_expectations"])
StringT = Opaque("QubitPauliString", lambda k: QubitPauliString(Qubit(k // 3), [Pauli.X, Pauli.Y, Pauli.Z][k % 3]), cls=QubitPauliString)
MCT = Opaque("MeasurementCircuit", lambda k: ("mc", k))
BitsT = Opaque("Bits", lambda k: ("bits", k))
SymbolT = Opaque("Symbol", lambda k: Symbol(f"s{k}"), cls=Symbol)


# ---- symbols
@P.contract(d=DictOf(SymbolT, Real()), values=ListOf(Real()))
def symbolic_map(d, values):
    s = SymbolsDict.symbols_from_dict(d)
    m = s.get_symbolic_map(values)
    keys = list(d.keys())
    ensure("each symbol gets the value at its position", all(k in m and m[k] == v for k, v in zip(keys, values)))
    ensure("nothing else gets a value", len(m) == min(len(keys), len(values)))
    ensure("the dictionary itself keeps its values", list(s.symbols_list) == keys)


@P.contract(d=DictOf(SymbolT, Real()), values=ListOf(Real()))
def set_values(d, values):
    keys = list(d.keys())
    s = SymbolsDict.symbols_from_dict(d)
    require(len(values) == len(keys))
    s.set_values(values)
    ensure("same symbols in the same order", list(s.symbols_list) == keys)
    ensure("values by position", all(s._symbolic_map[k] == v for k, v in zip(keys, values)))


@P.contract(d=DictOf(SymbolT, Real()), x=SymbolT, v=Real())
def add_value(d, x, v):
    s = SymbolsDict.symbols_from_dict(dict(d))
    known = x in d
    try:
        s.add_value(x, v)
        ok = True
    except ValueError:
        ok = False
    ensure("accepted exactly for known symbols", ok == known)
    ensure("value stored", implies(ok, known and s._symbolic_map[x] == v))
    ensure("other values kept", all(s._symbolic_map[k] == d[k] for k in d if k != x))


@P.contract(syms=ListOf(SymbolT), probe=SymbolT)
def from_list(syms, probe):
    s = SymbolsDict.symbols_from_list(syms)
    ensure("every symbol, without a value", all(x in s._symbolic_map and s._symbolic_map[x] is None for x in syms))
    ensure("only those symbols", (probe in s._symbolic_map) == (probe in syms))


# ---- tracker
@P.contract(op=DictOf(StringT, Real()))
def new_tracker(op):
    t = ObservableTracker(QubitPauliOperator(op))
    ensure("tracks the strings of the operator", list(t.get_empty_strings()) == list(op.keys()))
    ensure("nothing is measured yet", len(t.measurement_circuits) == 0 and not any(t.check_string(s) for s in op))


@P.contract(op=DictOf(StringT, Real()), probe=StringT, c=Real())
def modify(op, probe, c):
    given = QubitPauliOperator(op)
    t = ObservableTracker(given)
    known = probe in op
    try:
        t.modify_coefficients([(probe, c)])
        ok = True
    except ValueError:
        ok = False
    ensure("accepted exactly for tracked strings", ok == known)
    ensure("new coefficient", implies(ok, known and t.qubit_pauli_operator[probe] == c))
    ensure("other coefficients kept", all(t.qubit_pauli_operator[s] == op[s] for s in op if s != probe))
    ensure("the operator given is not changed", all(given[s] == op[s] for s in op))


@P.contract(op=DictOf(StringT, Real()), more=DictOf(StringT, Real()), probe=StringT)
def extend(op, more, probe):
    given = QubitPauliOperator(op)
    t = ObservableTracker(given)
    t.extend_operator(QubitPauliOperator(more))
    known = probe in op or probe in more
    ensure("tracks the strings of both", (probe in t.qubit_pauli_operator._dict) == known)
    ensure("coefficients add up", implies(known, known and close(t.qubit_pauli_operator[probe], op.get(probe, 0.0) + more.get(probe, 0.0))))
    ensure("every string needs a measurement", (probe in t.get_empty_strings()) == known)
    ensure("the operator given is not changed", (probe in given._dict) == (probe in op))


@P.contract(prove=False, op=DictOf(StringT, Real()), more=DictOf(StringT, Real(), min=1), m=MCT, bits=BitsT)
def extend_measure(op, more, m, bits):
    t = ObservableTracker(QubitPauliOperator(op))
    t.extend_operator(QubitPauliOperator(more))
    for s in more:
        t.add_measurement_circuit(m, [(s, bits, False)])
        ensure("a string added later can be measured", t.check_string(s) and list(t.get_measurement_circuits(s)) == [m])


@P.contract(op=DictOf(StringT, Real()), gone=StringT, probe=StringT)
def remove(op, gone, probe):
    given = QubitPauliOperator(op)
    t = ObservableTracker(given)
    t.remove_strings([gone])
    ensure("only the string removed is gone", (probe in t.qubit_pauli_operator._dict) == (probe in op and probe != gone))
    ensure("it needs no measurement", (probe in t.get_empty_strings()) == (probe in op and probe != gone))
    ensure("the operator given is not changed", (probe in given._dict) == (probe in op))


@P.contract(prove=False, op=DictOf(StringT, Real(), min=1), a=StringT, b=StringT, m=MCT, n=MCT, bits=BitsT, inv=Bool(), probe=StringT)
def add(op, a, b, m, n, bits, inv, probe):
    require(a in op and b in op)
    t = ObservableTracker(QubitPauliOperator(op))
    t.add_measurement_circuit(m, [(a, bits, inv)])
    u = ObservableTracker.from_ObservableTracker(t)
    u.add_measurement_circuit(n, [(b, bits, inv)])
    ensure("circuit kept", list(t.measurement_circuits) == [m] and list(u.measurement_circuits) == [m, n])
    ensure("its string is measured", t.check_string(probe) == (probe == a))
    ensure("the copy grows alone", u.check_string(probe) == (probe == a or probe == b))
    ensure("the others still need a measurement", (probe in t.get_empty_strings()) == (probe in op and probe != a))
    ensure("circuits of a string", list(t.get_measurement_circuits(a)) == [m] and list(u.get_measurement_circuits(b)) == ([m, n] if a == b else [n]))
    t.clear()
    ensure("cleared", len(t.measurement_circuits) == 0 and (probe in t.get_empty_strings()) == (probe in op))
    ensure("clearing leaves the copy alone", list(u.measurement_circuits) == [m, n] and u.check_string(a) and u.check_string(b))


@P.contract(op=DictOf(StringT, Real()), a=StringT, m=MCT, bits=BitsT)
def unknown_string(op, a, m, bits):
    require(a not in op)
    t = ObservableTracker(QubitPauliOperator(op))
    try:
        t.add_measurement_circuit(m, [(a, bits, False)])
        ok = False
    except ValueError:
        ok = True
    ensure("a measurement of an untracked string is refused", ok)


class FakeResult:
    """counts depend on the bits asked for"""

    def __init__(self, k):
        self.k = k

    def get_counts(self, bits):
        h = hash((self.k, bits)) % 7
        return Counter({(0, 0): h, (1, 0): 3, (1, 1): self.k})


ResultT = Opaque("Result", FakeResult)


@P.contract(todo=DictOf(StringT, TupleOf(Real(), ListOf(TupleOf(Int(0), BitsT, Bool())))), results=ListOf(ResultT))
def expectations(todo, results):
    require(all(i < len(results) for c, infos in todo.values() for i, b, inv in infos))
    t = ObservableTracker(QubitPauliOperator({s: c for s, (c, infos) in todo.items()}))
    t._qps_to_indices = {s: infos for s, (c, infos) in todo.items()}
    out = t.get_expectations(results)
    ensure("an expectation for every string", list(out._dict.keys()) == list(todo.keys()))
    ensure("coefficient times the signed parities of its bits", all(
        close(out[s], c * sum((-1 if inv else 1) * expectation_from_counts(results[i].get_counts(b)) for i, b, inv in infos))
        for s, (c, infos) in todo.items()))


@P.contract(c=Real(), i=Int(0), b=BitsT, inv=Bool(), results=ListOf(ResultT))
def missing_result(c, i, b, inv, results):
    s = QubitPauliString(Qubit(0), Pauli.Z)
    t = ObservableTracker(QubitPauliOperator({s: c}))
    t._qps_to_indices = {s: [(i, b, inv)]}
    try:
        t.get_expectations(results)
        ok = True
    except ValueError:
        ok = False
    ensure("a missing result is an error", ok == (i < len(results)))


# ---- bounded: histories of tracker operations against a model
P.functions += ["qermit/taskgraph/utils.py:" + f for f in (
    "ObservableTracker.add_measurement_circuit", "ObservableTracker.from_ObservableTracker", "ObservableTracker.clear",
    "ObservableTracker.get_measurement_circuits", "MeasurementCircuit.get_parametric_circuit", "SymbolsDict.symbols_from_circuit")]


class TrackerModel:
    def __init__(self, op):
        self.op, self.idx, self.circs = dict(op), {s: [] for s in op}, []

    def copy(self):
        m = TrackerModel(self.op)
        m.idx, m.circs = {s: list(v) for s, v in self.idx.items()}, list(self.circs)
        return m


def agrees(t, m, universe, r):
    ensure("operator", {s: complex(c).real for s, c in t.qubit_pauli_operator._dict.items()} == m.op, (t.qubit_pauli_operator, m.op))
    ensure("measurement circuits", list(t.measurement_circuits) == m.circs)
    ensure("empty strings", sorted(map(str, t.get_empty_strings())) == sorted(str(s) for s in m.op if not m.idx[s]))
    for s in universe:
        ensure("check_string", t.check_string(s) == bool(m.idx.get(s)))
        if s in m.idx:
            ensure("circuits of a string", list(t.get_measurement_circuits(s)) == [m.circs[k] for k, _, _ in m.idx[s]])
    if m.circs:
        bits = [Bit(k) for k in range(3)]
        tabs = [rand_table(r, r.randint(1, 5), 3) for _ in m.circs]
        out = t.get_expectations([shots_result(x, bits) for x in tabs])
        want = {}
        for s in m.op:
            want[s] = m.op[s] * sum((-1 if inv else 1) * sum((-1) ** sum(row[b.index[0]] for b in bb) for row in tabs[k]) / len(tabs[k])
                                    for k, bb, inv in m.idx[s])
        ensure("expectations", set(out._dict) == set(want) and all(abs(complex(out[s]) - want[s]) < 1e-9 for s in want), (out, want))


@P.harness(runs=200)
def histories(r, i):
    qs = [Qubit(k) for k in range(2)]
    universe = [QubitPauliString(dict(zip(qs, ps))) for ps in [(Pauli.X, Pauli.I), (Pauli.Z, Pauli.Z), (Pauli.I, Pauli.Y), (Pauli.Y, Pauli.X)]]
    universe.append(QubitPauliString())

    def rand_op():
        return {s: r.choice([1.0, -0.5, 2.0]) for s in r.sample(universe, r.randint(0, 4))}

    given = []
    pool = []
    trace = []

    def new():
        if r.random() < 0.2:
            pool.append((ObservableTracker(), TrackerModel({})))
            return "new()"
        o = rand_op()
        q = given[-1][0] if given and r.random() < 0.3 else QubitPauliOperator(o)
        if given and q is given[-1][0]:
            o = given[-1][1]
        else:
            given.append((q, dict(o)))
        pool.append((ObservableTracker(q), TrackerModel(o)))
        return f"new({o})"

    trace.append(new())
    for _ in range(r.randint(2, 9)):
        k = r.randrange(len(pool))
        t, m = pool[k]
        op = r.choice(["new", "copy", "extend", "modify", "remove", "measure", "measure", "measure", "clear"])
        if op == "new":
            txt = new()
        elif op == "copy":
            pool.append((ObservableTracker.from_ObservableTracker(t), m.copy()))
            txt = f"copy({k})"
        elif op == "extend":
            o = rand_op()
            t.extend_operator(QubitPauliOperator(o))
            for s, c in o.items():
                m.op[s] = m.op.get(s, 0.0) + c
                m.idx.setdefault(s, [])
            txt = f"extend({k},{o})"
        elif op == "modify":
            ch = [(s, r.choice([0.25, 3.0])) for s in r.sample(list(m.op), r.randint(0, len(m.op)))]
            t.modify_coefficients(ch)
            m.op.update(ch)
            txt = f"modify({k},{ch})"
        elif op == "remove":
            gone = r.sample(universe, r.randint(0, 2))
            t.remove_strings(gone)
            for s in gone:
                m.op.pop(s, None)
                m.idx.pop(s, None)
            txt = f"remove({k},{gone})"
        elif op == "measure":
            ss = r.sample(list(m.op), r.randint(0, min(2, len(m.op))))
            mc = MeasurementCircuit(Circuit(2, name=f"m{len(trace)}"), SymbolsDict())
            info = [(s, [Bit(b) for b in r.sample(range(3), r.randint(1, 3))], r.random() < 0.5) for s in ss]
            t.add_measurement_circuit(mc, info)
            m.circs.append(mc)
            for s, b, inv in info:
                m.idx[s].append((len(m.circs) - 1, b, inv))
            txt = f"measure({k},{info})"
        else:
            t.clear()
            m.idx, m.circs = {s: [] for s in m.op}, []
            txt = f"clear({k})"
        trace.append(txt)
    log(trace)
    for t, m in pool:
        agrees(t, m, universe, r)
    for q, o in given:
        ensure("the operators given are not changed", {s: complex(c).real for s, c in q._dict.items()} == o, (q, o))


@P.harness(runs=120)
def substitution(r, i):
    """a measurement circuit with values for its symbols is the circuit with those values; the symbolic one stays"""
    names = r.sample(["a", "b", "c"], r.randint(1, 3))
    syms = [Symbol(n) for n in names]
    vals = {s: round(r.uniform(-2, 2), 3) for s in syms}
    c, want = Circuit(2), Circuit(2)
    for _ in range(r.randint(0, 6)):
        s, ax, q = r.choice(syms), r.choice(["Rx", "Rz"]), r.randint(0, 1)
        k = r.choice([1, 2])
        getattr(c, ax)(k * s, q)
        getattr(want, ax)(k * vals[s], q)
        c.CX(0, 1)
        want.CX(0, 1)
    log(vals, c.get_commands())
    how = r.randint(0, 2)
    if how == 0:
        d = SymbolsDict.symbols_from_dict(dict(vals))
    elif how == 1:
        d = SymbolsDict.symbols_from_list([r.choice([s, str(s)]) for s in syms])
        d.set_values([vals[s] for s in d.symbols_list])
    else:
        d = SymbolsDict.symbols_from_circuit(c)
        ensure("symbols of the circuit", set(d.symbols_list) == c.free_symbols())
        for s in list(d.symbols_list):
            d.add_value(s, vals[s])
    before = c.copy()
    m = MeasurementCircuit(c, d)
    out = m.get_parametric_circuit()
    ensure("no symbol is left", not out.free_symbols())
    ensure("circuit with the values", np.allclose(unitary(out), unitary(want)))
    ensure("symbolic circuit kept", m.circuit == before and c == before)
    ensure("symbols reported", set(m.symbols) == set(d.symbols_list))
    plain = MeasurementCircuit(c)
    ensure("symbols found in the circuit", set(plain.symbols) == c.free_symbols())
