"""Run one property: prove its contracts on /repo's current source, look for failing inputs, write evidence."""
import argparse
import ast
import base64
import importlib
import json
import multiprocessing as mp
import os
import pickle
import random
import resource
import sys
import time
import traceback
import warnings

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("PYDV_REPO", "/repo")


def load(pid):
    sys.path[:0] = [REPO, VERIF]
    sys.dont_write_bytecode = True
    warnings.filterwarnings("ignore")
    from pydv import contract, interp, builtins_model  # noqa
    try:
        from pydv import pytket_model  # noqa
    except ImportError:
        pass
    mod = importlib.import_module("contracts." + pid)
    import qermit

    assert os.path.realpath(qermit.__file__).startswith(os.path.realpath(REPO) + "/"), qermit.__file__
    return contract.Prop.registry[pid], mod


# ---------------------------------------------------------------------------- symbolic side
def symbolic(c, bounded, bound=2, timeout=6000):
    """-> dict(status per obligation, functions, trusted, errors)"""
    from pydv.interp import Interp
    from pydv.values import Unsupported, Infeasible, z3
    from pydv.contract import Ctx

    ex = Interp(timeout=timeout, bounded=bounded)
    ex.bound = bound
    obls, errors, models = {}, [], []
    t0 = time.time()

    def thunk():
        args = {k: t.sym(ex, k) for k, t in c.args.items()}
        heap0 = dict(ex.heap)
        n0 = len(ex.obligations)
        try:
            ex.call(c.fn, [], args)
            ok = None
        except PyRaiseT as e:
            ok = e
        finally:
            for name, line, rep in ex.obligations[n0:]:
                for sg, st, m in rep or [(None, "proved", None)]:
                    key = name
                    o = obls.setdefault(key, {"proved": 0, "refuted": 0, "unknown": 0, "detail": []})
                    o[st] += 1
                    if st != "proved":
                        if len(o["detail"]) < 3:
                            o["detail"].append(str(sg)[:1500])
                        if m is not None and len(models) < 8:
                            try:
                                ctx = Ctx(heap0)
                                models.append((name, {k: t.conc(m, args[k], ctx) for k, t in c.args.items()}))
                            except Exception as e:  # no concretisation for this model
                                errors.append(f"concretisation: {e!r}")
            del ex.obligations[n0:]
        if ok is not None:
            o = obls.setdefault("no exception", {"proved": 0, "refuted": 0, "unknown": 0, "detail": []})
            r = ex.check(ex.pc, timeout)
            st = {"unsat": "proved", "sat": "refuted", "unknown": "unknown"}[str(r)]
            o[st] += 1
            if st != "proved":
                o["detail"].append(f"{getattr(ok.cls, '__name__', ok.cls)}{str(ok.eargs)[:200]} at {ok.where}")
                if st == "refuted" and len(models) < 8:
                    try:
                        ctx = Ctx(heap0)
                        models.append(("no exception", {k: t.conc(ex.last_model, args[k], ctx) for k, t in c.args.items()}))
                    except Exception as e:
                        errors.append(f"concretisation: {e!r}")
        else:
            o = obls.setdefault("no exception", {"proved": 0, "refuted": 0, "unknown": 0, "detail": []})
            o["proved"] += 1

    from pydv.values import PyRaise as PyRaiseT

    try:
        ex.explore(thunk, limit=400)
    except Unsupported as e:
        errors.append(f"outside the fragment: {e} (line {ex.curline})")
    except RecursionError:
        errors.append("recursion limit of the executor")
    except z3.Z3Exception as e:
        errors.append(f"z3: {e} at {traceback.format_exc()[-2600:]}")
    except Exception as e:
        errors.append(f"executor error {e!r}: {traceback.format_exc()[-900:]}")
    return {
        "contract": c.name,
        "obligations": obls,
        "errors": errors,
        "inexact": ex.inexact,
        "functions": sorted(ex.functions),
        "trusted": sorted(ex.trusted),
        "stats": ex.stats,
        "models": models,
        "wall": time.time() - t0,
    }


# ---------------------------------------------------------------------------- concrete side
def beyond_standins(e, module):
    """something was asked of a stand-in that it does not have"""
    from pydv.values import standin

    if isinstance(e, AttributeError) and getattr(e, "obj", None) is not None and standin(type(e.obj)):
        return True
    if not isinstance(e, (AttributeError, TypeError)):
        return False
    text = str(e)
    names = [n for n, c in vars(module or object).items() if standin(c) and c.__name__ == n]
    return any(text.startswith(f"{n}.") and "() " in text or f"'{n}'" in text for n in names)


def run_concrete(fn, kwargs):
    """-> None | ('skip',) | (obligation, detail)"""
    from pydv.contract import Skip, Violated

    try:
        fn(**kwargs)
    except Skip:
        return ("skip",)
    except Violated as e:
        return (e.name, e.detail)
    except Exception as e:
        if beyond_standins(e, sys.modules.get(fn.__module__)):
            return ("skip",)
        return ("no exception", f"{type(e).__name__}: {str(e)[:500]} | {traceback.format_exc()[-1200:]}")
    return None


def mined_ints(functions):
    """integer literals of the functions under check (boundary values for generated inputs)"""
    out = set()
    for f in functions:
        path, _, name = f.partition(":")
        try:
            tree = ast.parse(open(os.path.join(REPO, path)).read())
        except (OSError, SyntaxError):
            continue
        for n in ast.walk(tree):
            if isinstance(n, ast.Constant) and isinstance(n.value, int) and not isinstance(n.value, bool) and abs(n.value) < 200:
                out.add(n.value)
    return sorted(out)


def case_args(c, seed, i, ints):
    r = random.Random(f"{seed}/{c.name}/{i}")
    return c.rand(r, ints)


def concrete_contract(c, seed, runs, budget, ints):
    t0 = time.time()
    ran = skipped = 0
    seen = set()
    samples = []
    for i in range(runs * 20):
        if ran >= runs or time.time() - t0 > budget or (skipped > 50 * (ran + 4)):
            break
        try:
            a = case_args(c, seed, i, ints)
        except Exception as e:
            return dict(name=c.name, ran=ran, skipped=skipped, distinct=len(seen), samples=samples, bad=None, error=f"generator: {e!r} {traceback.format_exc()[-500:]}")
        txt = repr(a)[:4000]
        res = run_concrete(c.fn, a)
        if res == ("skip",):
            skipped += 1
            continue
        ran += 1
        seen.add(hash(txt))
        if len(samples) < 2 and len(txt) > 20:
            samples.append(f"{c.name}: {txt[:300]}")
        if res is not None:
            return dict(name=c.name, ran=ran, skipped=skipped, distinct=len(seen), samples=samples, bad=dict(kind="contract", contract=c.name, seed=seed, index=i, ints=ints, obligation=res[0], detail=res[1], inputs=txt))
    return dict(name=c.name, ran=ran, skipped=skipped, distinct=len(seen), samples=samples, bad=None)


def concrete_harness(h, seed, runs, budget):
    from pydv.contract import COUNT

    fn, _, kw = h
    t0 = time.time()
    ran = skipped = 0
    seen = set()
    samples = []
    COUNT.clear()
    for i in range(runs):
        if time.time() - t0 > budget:
            break
        r = random.Random(f"{seed}/{fn.__name__}/{i}")
        LOG.clear()
        res = run_concrete(fn, dict(r=r, i=i))
        if res == ("skip",):
            skipped += 1
            continue
        ran += 1
        txt = " ".join(LOG) or f"case {i}"
        seen.add(hash(txt))
        if len(samples) < 2:
            samples.append(f"{fn.__name__}: {txt[:300]}")
        if res is not None:
            return dict(name=fn.__name__, ran=ran, skipped=skipped, distinct=len(seen), samples=samples, ensures=sum(COUNT.values()), bad=dict(kind="harness", contract=fn.__name__, seed=seed, index=i, obligation=res[0], detail=res[1], inputs=txt[:4000]))
    return dict(name=fn.__name__, ran=ran, skipped=skipped, distinct=len(seen), samples=samples, ensures=sum(COUNT.values()), bad=None)


LOG = []


def log(*a):
    """called by harnesses to describe the generated case"""
    LOG.append(" ".join(str(x) for x in a))


# ---------------------------------------------------------------------------- workers
def _child(q, job, fn, args):
    try:
        devnull = os.open(os.devnull, os.O_WRONLY)
        os.dup2(devnull, 1)
        os.dup2(devnull, 2)
        resource.setrlimit(resource.RLIMIT_AS, (12 << 30, 12 << 30))
        sys.setrecursionlimit(20000)
        r = fn(*args)
        try:
            data = pickle.dumps(r)
        except Exception:
            if isinstance(r, dict) and r.get("models"):
                r["models"] = []
                r.setdefault("errors", []).append("counterexample values not picklable")
            data = pickle.dumps(r)
        q.send_bytes(data)
    except BaseException as e:
        q.send_bytes(pickle.dumps({"crash": f"{e!r} {traceback.format_exc()[-800:]}"}))
    finally:
        q.close()
        os._exit(0)


def parallel(jobs, limit, workers=8):
    """jobs: [(key, fn, args, seconds)] -> {key: result}"""
    ctx = mp.get_context("fork")
    todo, running, out = list(jobs), [], {}
    end = time.time() + limit
    while todo or running:
        while todo and len(running) < workers and time.time() < end:
            key, fn, args, secs = todo.pop(0)
            a, b = ctx.Pipe(False)
            p = ctx.Process(target=_child, args=(b, key, fn, args))
            p.start()
            b.close()
            running.append((key, p, a, time.time() + secs))
        if todo and time.time() >= end:
            for key, *_ in todo:
                out[key] = {"timeout": True}
            todo = []
        nxt = []
        for key, p, a, dl in running:
            done = False
            if a.poll(0):
                try:
                    out[key] = pickle.loads(a.recv_bytes())
                except EOFError:
                    out[key] = {"crash": "worker ended"}
                done = True
            elif not p.is_alive():
                out[key] = {"crash": "worker ended"}
                done = True
            elif time.time() > min(dl, end + 5):
                p.kill()
                out[key] = {"timeout": True}
                done = True
            if done:
                p.join(1)
                if p.is_alive():
                    p.kill()
                a.close()
            else:
                nxt.append((key, p, a, dl))
        running = nxt
        time.sleep(0.02)
    return out


# ---------------------------------------------------------------------------- main
def known_findings(pid):
    out = []
    path = os.path.join(VERIF, "KNOWN_FINDINGS")
    if os.path.exists(path):
        for line in open(path):
            line = line.strip()
            if line.startswith("finding: "):
                d = json.loads(line[len("finding: "):])
                if d["property"] == pid:
                    out.append(d)
    return out


def selftest():
    """the executor proves the true contracts of contracts/selftest.py and none of the false ones"""
    prop, _ = load("selftest")
    jobs = [((c.name,), symbolic, (c, False), 120) for c in prop.contracts] + [((c.name, "bmc"), symbolic, (c, True, 2), 120) for c in prop.contracts]
    res = parallel(jobs, 600)
    ok = True
    for k, r in sorted(res.items()):
        want = k[0].startswith("t_")
        good = "obligations" in r and not r["errors"] and all(not o["refuted"] and not o["unknown"] for o in r["obligations"].values())
        if len(k) == 2 and want:
            good = "obligations" in r and all(not o["refuted"] for o in r["obligations"].values())
        if good != want:
            ok = False
            print("selftest failed:", k, str(r)[:800])
    print("selftest", "ok" if ok else "FAILED", len(res))
    return 0 if ok else 1


def main(argv=None):
    ap = argparse.ArgumentParser()
    ap.add_argument("pid", nargs="?")
    ap.add_argument("--selftest", action="store_true")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--replay")
    ap.add_argument("--only")
    ap.add_argument("-v", action="store_true")
    a = ap.parse_args(argv)
    if a.selftest:
        return selftest()
    pid, tier = a.pid, a.tier
    seed = int(os.environ.get("VERIF_SEED", "1"))
    t0 = time.time()
    try:
        prop, mod = load(pid)
    except Exception as e:
        if isinstance(e, (ModuleNotFoundError,)) and "contracts" in str(e):
            raise
        # the code under check does not import: every obligation fails
        print(f"import of the code under check failed: {e!r}")
        traceback.print_exc()
        path = write_replay(pid, dict(kind="import", detail=repr(e)))
        print(f"VIOLATION property={pid} replay={path} no-failing-input-found")
        return 1
    if a.replay:
        return replay(prop, a.replay)
    thorough = tier == "thorough"
    scale = 12 if thorough else 1
    cs = [c for c in prop.contracts if not a.only or a.only == c.name]
    hs = [h for h in prop.harnesses if not a.only or a.only == h[0].__name__]
    # 1. unbounded proof attempt and first concrete pass, in parallel
    jobs = []
    for c in cs:
        if c.prove:
            jobs.append((("prove", c.name), symbolic, (c, False, 2, 20000 if thorough else 6000), 600 if thorough else 240))
    ints = mined_ints(prop.functions)
    for c in cs:
        if c.runs:
            for part in range(4 if thorough else 1):
                jobs.append((("run", c.name, part), concrete_contract, (c, f"{seed}.{part}" if part else seed, c.runs * (3 if thorough else 1), 400 if thorough else 60, ints), 500 if thorough else 120))
    for h in hs:
        for part in range(8 if thorough else 2):
            jobs.append((("har", h[0].__name__, part), concrete_harness, (h, f"{seed}.{part}" if part else seed, h[1] * (4 if thorough else 1), 400 if thorough else 90), 500 if thorough else 150))
    res = parallel(jobs, 1800 if thorough else 500)
    # 2. for contracts not fully discharged: bounded symbolic run for failing inputs
    undis = []
    for c in cs:
        if not c.prove:
            continue
        r = res[("prove", c.name)]
        if "obligations" not in r or r["errors"] or any(o["refuted"] or o["unknown"] for o in r["obligations"].values()):
            undis.append(c)
    jobs2 = []
    for c in undis:
        if c.bmc:
            ks = [c.bmc] if not thorough else [c.bmc, c.bmc + 1]
            for k in ks:
                jobs2.append((("bmc", c.name, k), symbolic, (c, True, k, 6000), 120 if not thorough else 600))
    for c in [c for c in cs if not c.prove and c.bmc and c.bmc > 0 and getattr(c, "bmc_only", False)]:
        jobs2.append((("bmc", c.name, c.bmc), symbolic, (c, True, c.bmc, 6000), 120))
    res2 = parallel(jobs2, 900 if thorough else 200) if jobs2 else {}
    # 3. collect
    bad, alarms, notes, replays = [], [], [], {}
    cmap = {c.name: c for c in prop.contracts}
    for key, r in list(res.items()) + list(res2.items()):
        if key[0] in ("run", "har"):
            if r.get("bad"):
                bad.append(r["bad"])
            elif "ran" not in r:
                notes.append(f"{key}: {str(r)[:600]}")
            elif r.get("error"):
                notes.append(f"{key}: {r['error']}")
        else:
            for name, args in r.get("models", []):
                c = cmap[key[1]]
                out = safe_replay(c, args)
                replays.setdefault(c.name, []).append(out)
                if isinstance(out, tuple) and out != ("skip",):
                    bad.append(dict(kind="model", contract=c.name, obligation=out[0], detail=out[1], inputs=repr(args)[:4000], args=base64.b64encode(pickle.dumps(args)).decode(), verifier=f"obligation {name} refuted by z3"))
    obl = dis = 0
    per, bounded_only, functions, trusted, solver_s, qs = [], [], set(), set(), 0.0, 0
    for c in cs:
        if not c.prove:
            bounded_only.append(c.name)
            continue
        r = res[("prove", c.name)]
        if "obligations" not in r:
            obl += 1
            per.append(dict(contract=c.name, status="timeout" if r.get("timeout") else str(r)[:300]))
            continue
        functions |= set(r["functions"])
        trusted |= set(r["trusted"])
        solver_s += r["stats"]["solver_s"]
        qs += r["stats"]["sat"]
        complete = not r["errors"]
        d = {}
        for name, o in r["obligations"].items():
            if name == "no exception" and not (o["refuted"] or o["unknown"]) and not complete:
                o["unknown"] += 1
            n = o["proved"] + o["refuted"] + o["unknown"]
            obl += n
            dis += o["proved"] if complete else 0
            d[name] = "discharged" if complete and not o["refuted"] and not o["unknown"] else ("refuted" if o["refuted"] else "undischarged")
        if not r["obligations"]:
            obl += 1
        bm = {k[2]: v for k, v in res2.items() if k[1] == c.name}
        bs = {}
        for k, v in bm.items():
            if "obligations" not in v or v["errors"]:
                bs[k] = "no result: " + str(v.get("errors") or v)[:400]
            else:
                bs[k] = {n: ("bounded-ok" if not (o["refuted"] or o["unknown"]) else "refuted" if o["refuted"] else "unknown") for n, o in v["obligations"].items()}
        per.append(dict(contract=c.name, obligations=d, errors=r["errors"][:3], bounded=bs or None, wall=round(r["wall"], 2), details={n: o["detail"][:1] for n, o in r["obligations"].items() if o["detail"]}))
        # definite refutation without a concrete witness
        ref = [n for n, o in r["obligations"].items() if o["refuted"]]
        bref = [n for v in bm.values() if "obligations" in v and not v["inexact"] for n, o in v["obligations"].items() if o["refuted"]]
        bok = any(isinstance(x, dict) and all(s == "bounded-ok" for s in x.values()) for x in bs.values())
        if (bref or (ref and not bok and not r["inexact"])) and not any(b["contract"] == c.name for b in bad):
            if replays.get(c.name) and all(x == "ok" for x in replays[c.name]):
                notes.append(f"{c.name}: {(bref or ref)[0]} refuted, but the real code satisfies the contract on every counterexample ({len(replays[c.name])} replayed)")
                continue
            alarms.append(dict(kind="obligation", contract=c.name, obligation=(bref or ref)[0], detail="refuted by the verifier; no failing input found", verifier=json.dumps(per[-1], default=str)[:6000]))
        if a.v and (r["errors"] or ref):
            print(json.dumps(per[-1], indent=1, default=str)[:5000])
    known = known_findings(pid)
    reported, knownhit = [], []
    for b in bad:
        k = next((k for k in known if k["contract"] == b["contract"] and k["obligation"] == b["obligation"] and k.get("match", "") in (b["inputs"] + b["detail"])), None)
        (knownhit if k else reported).append((b, k))
    for k in known:
        print(f"KNOWN-FINDING: property={pid} {k['what']}")
    runs = [r for k, r in res.items() if k[0] in ("run", "har") and "ran" in r]
    evals, distinct = sum(r["ran"] for r in runs), sum(r["distinct"] for r in runs)
    ev = dict(
        property=pid, tier=tier, seed=seed, level=getattr(mod, "LEVEL", "proof"),
        coverage=dict(
            obligations=obl, discharged=dis,
            checker_cmd=f"/opt/venv/bin/python /verif/check.py {pid} --tier {tier}",
            trusted_base=sorted(trusted) + BASE + list(getattr(mod, "TRUSTED", [])),
            functions_under_contract=sorted(functions),
            bounded_functions=sorted(set(prop.functions) - functions),
            contracts=per, bounded_contracts=bounded_only,
            backend="z3 " + __import__("z3").get_version_string(), solver_s=round(solver_s, 2), solver_queries=qs,
            evaluations=evals, distinct_nontrivial=distinct,
            rule="bounded part: inputs drawn from the argument types of the contracts and by the harness generators (seeded); a case counts when the precondition holds and its printed form is new",
            samples=[s for r in runs for s in r["samples"]][:12],
            bounded={f"{r['name']}": dict(ran=r["ran"], skipped=r["skipped"]) for r in runs},
            explanation=getattr(mod, "EXPLANATION", ""),
            notes=notes[:10],
        ),
        assumptions=BASE + list(getattr(mod, "TRUSTED", [])),
        wall_s=round(time.time() - t0, 2), violations=len(reported) + len(alarms),
    )
    if ev["level"] == "exploration":
        pass
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    if not a.only:
        json.dump(ev, open(os.path.join(VERIF, "evidence", f"{pid}.json"), "w"), indent=1, default=str)
    for p in per:
        st = p.get("obligations", p.get("status"))
        if a.v or not isinstance(st, dict) or any(s != "discharged" for s in st.values()) or p.get("errors"):
            print(f"{p['contract']}: {st} {p.get('errors') or ''} bounded={p.get('bounded')}"[:1500])
        else:
            print(f"{p['contract']}: {len(st)} named obligations discharged ({p['wall']}s)")
    for n in notes:
        print("note:", n[:800])
    print(f"{pid}: {dis}/{obl} obligations discharged, {evals} bounded runs ({distinct} distinct), {time.time() - t0:.1f}s")
    if reported:
        b = reported[0][0]
        path = write_replay(pid, b)
        print(f"failed obligation: {b['contract']} / {b['obligation']}: {b['detail'][:600]}")
        print(f"VIOLATION property={pid} replay={path}")
        return 1
    if alarms:
        path = write_replay(pid, alarms[0])
        print(f"failed obligation: {alarms[0]['contract']} / {alarms[0]['obligation']}")
        print(f"VIOLATION property={pid} replay={path} no-failing-input-found")
        return 1
    if evals + obl == 0 and not a.only:
        print("nothing was checked")
        return 2
    return 0


BASE = [
    "pydv executor (symbolic semantics of the Python subset), cross-checked against CPython on every contract",
    "z3",
    "floating-point arithmetic treated as exact real arithmetic; Python ints as mathematical integers",
]


def safe_replay(c, args):
    """'ok' | ('skip',) | (obligation, detail) | None when it could not be run"""
    r = parallel([("x", run_concrete, (c.fn, args), 60)], 70)["x"]
    if isinstance(r, dict):
        return None
    return "ok" if r is None else r


def write_replay(pid, b):
    d = os.path.join(VERIF, "replay")
    os.makedirs(d, exist_ok=True)
    path = os.path.join(d, f"{pid}-{b.get('contract', 'import')}.json")
    json.dump(dict(property=pid, **b), open(path, "w"), indent=1, default=str)
    return path


def replay(prop, path):
    b = json.load(open(path))
    if b["kind"] == "contract":
        c = next(c for c in prop.contracts if c.name == b["contract"])
        args = case_args(c, b["seed"], b["index"], b["ints"])
        res = run_concrete(c.fn, args)
        print("inputs:", repr(args)[:3000])
    elif b["kind"] == "harness":
        h = next(h for h in prop.harnesses if h[0].__name__ == b["contract"])
        LOG.clear()
        res = run_concrete(h[0], dict(r=random.Random(f"{b['seed']}/{b['contract']}/{b['index']}"), i=b["index"]))
        print("inputs:", " ".join(LOG)[:3000])
    elif b["kind"] == "model":
        c = next(c for c in prop.contracts if c.name == b["contract"])
        args = pickle.loads(base64.b64decode(b["args"]))
        res = run_concrete(c.fn, args)
        print("inputs:", repr(args)[:3000])
    else:
        print(json.dumps(b, indent=1))
        return 1
    print("result:", res)
    return 0 if res is None or res == ("skip",) else 1


if __name__ == "__main__":
    sys.exit(main())
