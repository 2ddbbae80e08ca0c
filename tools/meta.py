#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from tools/properties.py and the suites (so the two stay in step)."""
import json, os, sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import rsymlib as R
from properties import PROPS, NOT_APPLICABLE

by = {}
for n in R.suites():
    s = R.Suite(n)
    for e in s.entries.values():
        for p in e["props"]:
            by.setdefault(p, []).append((s, e))
lines, checks = [], []
ids = set()
for p in PROPS:
    assert p["id"] not in ids, p["id"]
    ids.add(p["id"])
    assert len(p["title"]) <= 80, p["id"]
    d = {k: p[k] for k in ("id", "title", "statement")}
    d["quantifier"] = {"over": p["over"], "text": p["forall"]}
    d["why_tests_cant"] = p["tests"]
    d["anchors"] = {
        "files": p["files"],
        "mechanism": [{"name": a, "where": b} for a, b in p["mech"]],
        "observe_at": p.get("observe", []),
        "hook_needed": None,
    }
    lines.append(json.dumps(d))
    if p["id"] in NOT_APPLICABLE:
        assert p["id"] not in by, p["id"]
        continue
    es = by.get(p["id"])
    assert es, f"no harness for {p['id']}"
    bounds = "; ".join(f"{e['name']}: {b}" for _, e in es for b in e["bounds"])
    assume = sorted({a for s, e in es for a in s.trusted + e["assume"]})
    checks.append(
        {
            "property": p["id"],
            "quick_cmd": f"python3 tools/check.py {p['id']} quick",
            "thorough_cmd": f"python3 tools/check.py {p['id']} thorough",
            "technique": "symbolic execution of the compiled LLVM IR with Z3 deciding every assertion; counterexamples replayed natively",
            "level": "model_checking",
            "level_note": f"Holds for every input within the bounds ({bounds}); nothing is claimed outside them. Assumes: " + "; ".join(assume) + ".",
        }
    )
for p in by:
    assert p in ids, f"{p} has harnesses but no property"
open(os.path.join(R.VERIF, "properties.jsonl"), "w").write("\n".join(lines) + "\n")
m = {
    "version": 1,
    "setup_cmd": "python3 tools/setup.py",
    "checks": checks,
    "not_applicable": [{"property": k, "reason": v} for k, v in NOT_APPLICABLE.items()],
    "notes": "engine/ is the symbolic executor, shims/ the stand-ins, suites/ the harnesses, tools/check.py the driver; known findings are in known_findings.json; DESIGN.md describes everything.",
}
json.dump(m, open(os.path.join(R.VERIF, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(R.VERIF, "MANIFEST.json"), "a").write("\n")
try:
    import jsonschema

    jsonschema.validate(m, json.load(open("/root/.vp/MANIFEST.schema.json")))
    sc = json.load(open("/root/.vp/PROPERTIES.schema.json"))
    for l in lines:
        jsonschema.validate(json.loads(l), sc)
    print("valid:", len(lines), "properties,", len(checks), "checks")
except ImportError:
    print("written (jsonschema not available: run with python3-vt to validate)")
import runpy
runpy.run_path(os.path.join(os.path.dirname(os.path.abspath(__file__)), "design.py"))
