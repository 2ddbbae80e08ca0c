#!/usr/bin/env python3
"""Writes DESIGN.md from tools/design_head.md, tools/properties.py, the annotations of the harnesses and seeded/."""
import glob, json, os, sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import rsymlib as R
from properties import PROPS, NOT_APPLICABLE

by, suites = {}, {}
for n in R.suites():
    s = R.Suite(n)
    suites[n] = s
    for e in s.entries.values():
        for p in e["props"]:
            by.setdefault(p, []).append((s, e))
out = [open(os.path.join(R.VERIF, "tools", "design_head.md")).read().rstrip(), "", "## Properties", ""]
for p in PROPS:
    out += [f"### {p['id']}: {p['title']}", "", p["statement"], ""]
    if p["id"] in NOT_APPLICABLE:
        out += ["Not applicable: " + NOT_APPLICABLE[p["id"]], ""]
        continue
    out += ["Code: " + "; ".join(f"{a} ({b})" for a, b in p["mech"]) + ".", "", "Beyond the tests: " + p["tests"] + ".", "", "Decided by symbolic execution, all assertions by the solver, for:", ""]
    for s, e in by[p["id"]]:
        t = " (thorough only)" if e["tier"] == "thorough" else ""
        out.append(f"* `{s.name}:{e['name']}`{t}: " + "; ".join(e["bounds"]) + ("; assuming " + "; ".join(e["assume"]) if e["assume"] else ""))
    f = os.path.join(R.VERIF, "evidence", p["id"] + ".json")
    out.append("")
out += ["## Assumptions of each suite", ""]
for n, s in suites.items():
    out += [f"**{n}**" + (": " + "; ".join(s.trusted) if s.trusted else ": none beyond the executor itself") + ".", ""]
out += ["## Which check catches which planted bug", "", "| Bug | Property | Needs |", "| --- | --- | --- |"]
for d in sorted(glob.glob(os.path.join(R.VERIF, "seeded", "*", "meta.json"))):
    m = json.load(open(d))
    c = "" if m.get("caught", True) else " (not caught)"
    out.append(f"| {os.path.basename(os.path.dirname(d))} | {m['property']}{c} | {m['needs']} |")
open(os.path.join(R.VERIF, "DESIGN.md"), "w").write("\n".join(out) + "\n")
