#!/usr/bin/env python3
"""write properties.jsonl and MANIFEST.json from tools/props.py (claimed: those with a contracts module)"""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "tools"))
from props import PROPS  # noqa


def where(p, m):
    last = m.split(".")[-1]
    for fn in p["anchors"]["files"]:
        t = open(os.path.join("/repo", fn)).read()
        if "def " + last + "(" in t or "class " + last in t:
            return fn
    raise SystemExit(f"{p['id']}: anchor {m} not found")


PY = "/opt/venv/bin/python"
with open(os.path.join(V, "properties.jsonl"), "w") as f:
    for p in PROPS:
        p["anchors"]["mechanism"] = [{"name": m, "where": where(p, m)} for m in p["anchors"]["mechanism"]]
        f.write(json.dumps({k: p[k] for k in ("id", "title", "statement", "quantifier", "why_tests_cant", "anchors")}) + "\n")
checks, na = [], []
for p in PROPS:
    if not os.path.exists(os.path.join(V, "contracts", p["id"] + ".py")):
        na.append({"property": p["id"], "reason": "check not built yet"})
        continue
    checks.append({
        "property": p["id"],
        "quick_cmd": f"{PY} check.py {p['id']} --tier quick",
        "thorough_cmd": f"{PY} check.py {p['id']} --tier thorough",
        "technique": "contract-based deductive verification (symbolic execution of /repo's source against contracts, obligations discharged by z3)"
        + ("; bounded contract checking on the real code where undischarged" if p["level"] == "proof" else ", with the main functions covered by bounded contract checking on the real code"),
        "level": p["level"], "level_note": p["note"]})
m = {"version": 1, "setup_cmd": f"{PY} check.py --selftest", "checks": checks, "not_applicable": na}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
try:
    sys.path.append("/opt/veriftools/pyvenv/lib/python3.12/site-packages")
    import jsonschema
    jsonschema.validate(m, json.load(open("/root/.vp/MANIFEST.schema.json")))
    for l in open(os.path.join(V, "properties.jsonl")):
        jsonschema.validate(json.loads(l), json.load(open("/root/.vp/PROPERTIES.schema.json")))
except ImportError:
    pass
print(len(checks), "checks;", [p["id"] for p in PROPS if p["statement"].count(". ") > 2])
