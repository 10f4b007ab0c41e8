"""Shot splitting and merging."""
from contracts.common import *  # noqa
from qermit.taskgraph.mitres import split_shots_task_gen, group_shots_task_gen

P = Prop("C02", ["qermit/taskgraph/mitres.py:split_shots_task_gen"])


@P.contract(max_shots=Int(1), wires=ListOf(Shots(1)))
def split(max_shots, wires):
    jobs, index = split_shots_task_gen(max_shots).run(wires)
    ensure("no job above the limit", all(j.Shots <= max_shots for j in jobs))
    ensure("no empty job", all(j.Shots >= 1 for j in jobs))
    ensure("one index per job", len(index) == len(jobs))
    ensure("indices name circuits", all(0 <= k < len(wires) for k in index))
    ensure("jobs run their own circuit", all(j.Circuit == wires[k].Circuit for j, k in zip(jobs, index)))
    ensure("shots conserved", all(sum(j.Shots for j, k in zip(jobs, index) if k == i) == w.Shots for i, w in enumerate(wires)))


# ---- bounded: merging and the whole pipeline on a recording backend
from contracts.fakes import *  # noqa
from qermit.taskgraph.mitres import gen_shot_split_MitRes, MitRes, backend_handle_task_gen, backend_res_task_gen, backend_compile_circuit_shots_task_gen  # noqa

P.functions += ["qermit/taskgraph/mitres.py:group_shots_task_gen", "qermit/taskgraph/mitres.py:gen_shot_split_MitRes",
              "qermit/taskgraph/mitres.py:backend_handle_task_gen", "qermit/taskgraph/mitres.py:backend_res_task_gen",
              "qermit/taskgraph/mitres.py:backend_compile_circuit_shots_task_gen", "qermit/taskgraph/mitres.py:MitRes.run"]


def rand_bits(r, n):
    b = r.choice([[Bit(k) for k in range(n)], [Bit("z", k) for k in range(n)],
                  [Bit("z", 0)] + [Bit("a", k) for k in range(n - 1)], [Bit(10 + k) for k in range(n)]])
    b = list(b)
    if r.random() < 0.6:
        r.shuffle(b)
    return b


@P.harness(runs=300)
def merge(r, i):
    """results of the jobs of a circuit become one result holding every shot of every job, in order"""
    n_circ = r.randint(1, 5)
    index, chunks, results = [], [], []
    for c in range(n_circ):
        bits = rand_bits(r, r.randint(1, 3))
        jobs = [rand_table(r, r.randint(1, 4), len(bits)) for _ in range(r.randint(1, 4))]
        for t in jobs:
            index.append(c)
            results.append(shots_result(t, bits))
        chunks.append((bits, [tuple(x) for t in jobs for x in t]))
    log(index, chunks)
    before = [str(x.to_dict()) for x in results]
    out = group_shots_task_gen().run(results, list(index))[0]
    ensure("one result per circuit", len(out) == n_circ)
    for res, (bits, want) in zip(out, chunks):
        ensure("same bits", set(res.c_bits) == set(bits) and len(res.c_bits) == len(bits))
        ensure("every shot, in order, each bit in its column", all_columns(res, bits) == want, (all_columns(res, bits), want))
        ensure("counts agree with the shots", counts_of(res, bits) == dict(Counter(want)))
    ensure("job results untouched", before == [str(x.to_dict()) for x in results])


@P.harness(runs=150)
def pipeline(r, i):
    """through the public entry: the backend sees jobs of at most the limit, adding up to the request"""
    limit = r.choice([1, 2, 3, 5, 8])
    wires, bits = [], []
    for k in range(r.randint(1, 5)):
        b = rand_bits(r, r.randint(1, 3))
        c = Circuit(name=f"c{k}")
        q = c.add_q_register("q", len(b))
        for x, qq in zip(b, q):
            c.add_bit(x)
            c.Measure(qq, x)
        bits.append(b)
        wires.append(CircuitShots(c, r.choice([1, limit, limit + 1, 2 * limit, r.randint(1, 20)])))
    log(limit, [(w.Circuit.name, w.Shots, bits[k]) for k, w in enumerate(wires)])
    tables = []

    def answer(c, s, k):
        t = rand_table(r, s, c.n_bits)
        tables.append((c.name, t))
        return shots_result(t, bits[int(c.name[1:])])

    be = FakeBackend(answer)
    res = gen_shot_split_MitRes(be, limit).run(wires)
    ensure("no job above the limit", all(1 <= s <= limit for _, s in be.jobs))
    ensure("one result per circuit", len(res) == len(wires))
    for k, w in enumerate(wires):
        want = [tuple(x) for nm, t in tables if nm == f"c{k}" for x in t]
        ensure("shots conserved", sum(s for c, s in be.jobs if c.name == f"c{k}") == w.Shots)
        ensure("shots of the result are the shots of its jobs", all_columns(res[k], bits[k]) == want)
    ensure("jobs run the circuits given", all(c == wires[int(c.name[1:])].Circuit for c, _ in be.jobs))


@P.harness(runs=150)
def unsplit(r, i):
    """the default pipeline: job k is circuit k with its own shots, and result k is the result of job k"""
    wires = []
    for k in range(r.choice([0, 1, 2, 3, 6])):
        c = Circuit(2, 2, name=f"c{k}")
        c.Rx(r.choice([0.1, 0.25, 0.5]), 0).CX(0, 1).measure_all()
        wires.append(CircuitShots(c, r.randint(1, 9)))
    log([w.Shots for w in wires])
    made = []
    be = FakeBackend(lambda c, s, k: made.append(shots_result(rand_table(r, s, 2), [Bit(0), Bit(1)])) or made[-1],
                     compile=lambda c, lvl: Circuit(2, 2, name=f"{c.name}@{lvl}"))
    m = MitRes(be)
    lvl = r.choice([0, 1, 2])
    compiled = r.random() < 0.5
    if compiled:
        m.prepend(backend_compile_circuit_shots_task_gen(be, lvl) if lvl != 1 else backend_compile_circuit_shots_task_gen(be))
    out = m.run(list(wires))
    ensure("a job per circuit, in order, with its shots", [s for _, s in be.jobs] == [w.Shots for w in wires])
    ensure("each job runs its circuit", [c.name for c, _ in be.jobs] == [w.Circuit.name + (f"@{lvl}" if compiled else "") for w in wires])
    ensure("result k is that of job k", len(out) == len(made) and all(a is b for a, b in zip(out, made)))


@P.harness(runs=20)
def tasks_in_a_row(r, i):
    """compiling, submitting and retrieving, appended one after another in a graph of the user"""
    from qermit import TaskGraph

    be = FakeBackend(lambda c, s, k: shots_result([[k % 2]] * s, [Bit(0)]))
    g = TaskGraph()
    g.append(backend_compile_circuit_shots_task_gen(be, r.choice([0, 1, 2])))
    g.append(backend_handle_task_gen(be))
    g.append(backend_res_task_gen(be))
    ensure("one wire in, one out", g.n_in_wires == 1 and g.n_out_wires == 1)
    wires = [CircuitShots(Circuit(1, 1, name=str(k)).Measure(0, 0), r.randint(1, 9)) for k in range(r.randint(1, 4))]
    out = g.run([wires])[0]
    ensure("each circuit's own result", [counts_of(o, [Bit(0)]) for o in out] == [{(k % 2,): w.Shots} for k, w in enumerate(wires)], out)
