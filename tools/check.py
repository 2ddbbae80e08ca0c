#!/usr/bin/env python3
"""check.py PROPERTY [quick|thorough]      decide one property
check.py --replay FILE                     replay a recorded counterexample on the real code
check.py --entry SUITE:ENTRY [tier]        run one harness (development)"""
import concurrent.futures as cf
import hashlib, json, os, subprocess, sys, time

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import rsymlib as R
from rsymlib import CheckError

T0 = time.time()


# values drawn by stand-ins only: the real code does not ask for them
STAND_IN_VALUES = ("known", "hash order", "ideal hash", "random byte", "random source fails", "random number", "random element")


def vals(nd, drop_order):
    return [int(x[2]) for x in nd if not (drop_order and x[0] in STAND_IN_VALUES)]


class Natives:
    def __init__(self, tier):
        self.tier = tier
        self.bins = {}

    def get(self, suite, mode, variant, release):
        k = (suite.name, mode, variant, release)
        if k not in self.bins:
            self.bins[k] = suite.build_native(mode, self.tier, variant, release)
        return self.bins[k]


def confirm(suite, e, v, nat):
    """Replays a counterexample; returns (reproduced, list of outcomes)."""
    outs = []
    modes = ["real", "kstd"] if suite.native_real else ["kstd"]
    for mode in modes:
        for release in (False, True):
            b = nat.get(suite, mode, e["variant"], release)
            n = 20 if mode == "real" else 1
            hit = None
            for r in R.run_native(b, [(e["name"], vals(v["nd"], mode == "real"))] * n):
                bad = v["label"] in r["failed"] if v["kind"] == "check" else (r["end"] in ("panic", "abort", "timeout"))
                if r["failed"] or (r["end"] in ("panic", "abort", "timeout") and not r.get("may_panic")):
                    bad = True
                if bad:
                    hit = r
                    break
            outs.append({"build": mode, "profile": "release" if release else "dev", "reproduced": bool(hit), "result": hit or r})
        if any(o["reproduced"] for o in outs):
            break
    return any(o["reproduced"] for o in outs), outs


def run_entries(todo, tier, deadline, seed, natives):
    """todo: [(suite, entry dict)] -> {(suite, name): merged report}"""
    engine = R.build_engine()
    lls = {}
    for s, e in todo:
        k = (s.name, e["variant"])
        if k not in lls:
            lls[k] = s.build_sym(tier, e["variant"])
    outdir = os.path.join(R.BUILD, "out", str(os.getpid()))
    os.makedirs(outdir, exist_ok=True)
    jobs = []
    for s, e in todo:
        for i in range(e["shards"]):
            jobs.append((s, e, i))
    # long (sharded) jobs first
    jobs.sort(key=lambda j: -j[1]["shards"])

    def one(j):
        s, e, i = j
        left = deadline - time.time()
        if left < 5:
            return j, {"incomplete": "no time left"}
        secs = min(left, e.get("secs", 100000))
        out = os.path.join(outdir, f"{s.name}-{e['name']}-{i}.json")
        cmd = [engine, lls[(s.name, e["variant"])], "--entry", e["name"], "--out", out, "--secs", str(int(secs)), "--seed", str(seed), "--samples", "24" if tier == "quick" else "100", "--shard", f"{i}/{e['shards']}"]
        try:
            r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=secs + 180, env=R.env())
        except subprocess.TimeoutExpired:
            return j, {"incomplete": "engine did not stop"}
        if r.returncode != 0 or not os.path.exists(out):
            return j, {"incomplete": f"engine exit {r.returncode}: {r.stdout[-500:]}"}
        d = json.load(open(out))
        os.remove(out)
        return j, d

    reports = {}
    with cf.ThreadPoolExecutor(max_workers=R.NCPU) as ex:
        futs = [ex.submit(one, j) for j in jobs]
        # build the native binaries meanwhile
        for s, e in todo:
            natives.get(s, "real" if s.native_real else "kstd", e["variant"], False)
        for f in cf.as_completed(futs):
            (s, e, i), d = f.result()
            m = reports.setdefault((s.name, e["name"]), {"suite": s, "entry": e, "paths": 0, "paths_end": 0, "paths_assumed": 0, "paths_panic_ok": 0, "checks_concrete": 0, "checks_proved": 0, "steps": 0, "forks": 0, "smt": {}, "covers": {}, "labels": {}, "errors": {}, "violations": [], "samples": [], "functions": {}, "incomplete": [], "wall_s": 0.0, "z3": "", "max_nd": 0})
            if d.get("incomplete"):
                m["incomplete"].append(d["incomplete"])
            if "paths" not in d:
                continue
            for k in ("paths", "paths_end", "paths_assumed", "paths_panic_ok", "checks_concrete", "checks_proved", "steps", "forks", "wall_s"):
                m[k] += d[k]
            m["max_nd"] = max(m["max_nd"], d["max_nd"])
            for k, v in d["smt"].items():
                m["smt"][k] = max(m["smt"].get(k, 0), v) if k == "max_secs" else m["smt"].get(k, 0) + v
            for k in ("covers", "errors", "functions"):
                for a, b in d[k].items():
                    m[k][a] = m[k].get(a, 0) + b
            for a, b in d["labels"].items():
                x = m["labels"].setdefault(a, [0, 0])
                x[0] += b[0]
                x[1] += b[1]
            m["violations"] += d["violations"]
            m["samples"] += d["samples"]
            m["z3"] = d["z3"]
    try:
        os.rmdir(outdir)
    except OSError:
        pass
    return reports


def known_findings():
    p = os.path.join(R.VERIF, "known_findings.json")
    return json.load(open(p)) if os.path.exists(p) else {"findings": [], "fixed": []}


def decide(prop, todo, tier, evidence=True):
    seed = int(os.environ.get("VERIF_SEED", "1"))
    budget = float(os.environ.get("VERIF_SECS", "780" if tier == "quick" else "5400"))
    deadline = T0 + budget
    natives = Natives(tier)
    reports = run_entries(todo, tier, deadline, seed, natives)
    problems, viols, known = [], [], []
    validated = 0
    mism = 0
    for (sn, en), m in sorted(reports.items()):
        s, e = m["suite"], m["entry"]
        # 1. counterexamples, replayed
        for v in m["violations"]:
            ok, outs = confirm(s, e, v, natives)
            v["replay"] = outs
            if not ok:
                problems.append(f"{en}: counterexample for '{v['label']}' ({v['kind']}) does not reproduce natively: {v['nd']} {v['stack'][:3]}")
                continue
            kf = [k for k in known_findings()["findings"] if k["property"] == prop and k["entry"] == en and k["label"] == v["label"]]
            (known if kf else viols).append((s, e, v, kf))
        # 2. sampled paths: the native run must agree with the symbolic one
        mode = "real" if s.native_real else "kstd"
        smp = m["samples"]
        b = natives.get(s, mode, e["variant"], False)
        stray = 0
        for x, r in zip(smp, R.run_native(b, [(en, vals(x["nd"], mode == "real")) for x in smp])):
            sym = [[a, str(int(c))] for a, c in x["obs"]]
            # an assumption on an ideal hash may fail for the real one (one in 256 for those of `fresh`)
            if r["msg"] == "assumption false" and any(v[0] == "ideal hash" for v in x["nd"]) and stray < 1 + len(smp) // 40:
                stray += 1
            elif r["end"] != x["end"] or r["obs"] != sym or (r["failed"] and not m["violations"]):
                mism += 1
                if mism <= 3:
                    problems.append(f"{en}: symbolic and native runs disagree on {x['nd']}: symbolic {x['end']} {sym}, native {r['end']} {r['obs']} {r['failed']} {r['msg']}")
            else:
                validated += 1
        # 3. completeness and vacuity
        for i in m["incomplete"]:
            problems.append(f"{en}: incomplete: {i}")
        for er, n in m["errors"].items():
            problems.append(f"{en}: engine error on {n} path(s): {er}")
        if not m["violations"]:
            for cv in e["cover"]:
                if cv not in m["covers"]:
                    problems.append(f"{en}: vacuous: cover point '{cv}' never reached")
            if m["paths_end"] + m["paths_panic_ok"] == 0:
                problems.append(f"{en}: vacuous: no path completed")
            if not m["labels"] and not m["errors"]:
                problems.append(f"{en}: vacuous: no check reached")
    code = 0
    evd = os.path.join(R.VERIF, "evidence")
    os.makedirs(evd, exist_ok=True)
    lines = []
    for s, e, v, kf in known:
        lines.append(f"KNOWN-FINDING: property={prop} {kf[0]['what']}")
    for n, (s, e, v, _) in enumerate(viols):
        rp = os.path.join(evd, f"{prop}-counterexample-{n}.json")
        json.dump({"property": prop, "suite": s.name, "entry": e["name"], "variant": e["variant"], "tier": tier, "kind": v["kind"], "label": v["label"], "inputs": v["nd"], "stack": v["stack"], "replays": v["replay"], "how": f"python3 {R.VERIF}/tools/check.py --replay {rp}"}, open(rp, "w"), indent=1)
        hit = next(o for o in v["replay"] if o["reproduced"])
        lines.append(f"  {e['name']}: {v['kind']} '{v['label']}' at {' < '.join(v['stack'][:4])}; reproduced natively ({hit['build']} {hit['profile']}): {hit['result'].get('msg') or hit['result'].get('failed')}")
        lines.append(f"VIOLATION property={prop} replay={rp}")
        code = 1
    tot = lambda k: sum(m[k] for m in reports.values())
    smt = lambda k: sum(m["smt"].get(k, 0) for m in reports.values())
    funcs = {}
    for m in reports.values():
        for a, b in m["functions"].items():
            funcs[a] = funcs.get(a, 0) + b
    repo_fns = [f for f in sorted(funcs) if not f.startswith(("core::", "alloc::", "std::", "hashbrown"))]
    samples = []
    for m in reports.values():
        for x in m["samples"][:2]:
            samples.append({"harness": m["entry"]["name"], "inputs": {f"{i}:{a}": c for i, (a, _, c) in enumerate(x["nd"])}, "observed": x["obs"], "end": x["end"]})
    ev = {
        "property": prop,
        "tier": tier,
        "seed": seed,
        "level": "model_checking",
        "coverage": {
            "states": tot("paths"),
            "transitions": tot("steps"),
            "traces_validated_against_impl": validated,
            "samples": samples[:12],
            "rule": "states = symbolic paths explored to their end (each stands for every input that satisfies its path condition); transitions = LLVM instructions executed symbolically; a trace is one solver-chosen input of a completed path, run natively on the real crate and compared value by value with the symbolic result",
            "paths_completed": tot("paths_end"),
            "paths_ended_by_assumption": tot("paths_assumed"),
            "paths_ended_by_tolerated_panic": tot("paths_panic_ok"),
            "assertions_discharged_by_solver": tot("checks_proved"),
            "assertions_decided_by_simplification": tot("checks_concrete"),
            "solver": {"z3": next((m["z3"] for m in reports.values()), ""), "queries": smt("queries"), "sat": smt("sat"), "unsat": smt("unsat"), "unknown": smt("unknown"), "cache_hits": smt("cache_hits"), "external": smt("external"), "seconds": round(smt("secs"), 3), "slowest_s": max([m["smt"].get("max_secs", 0) for m in reports.values()] or [0])},
            "functions_encoded": len(funcs),
            "functions_of_the_repository": repo_fns[:400],
            "harnesses": {
                f"{m['suite'].name}:{m['entry']['name']}": {"bounds": m["entry"]["bounds"], "paths": m["paths"], "queries": m["smt"].get("queries", 0), "solver_s": round(m["smt"].get("secs", 0), 2), "wall_s": round(m["wall_s"], 2), "covers": m["covers"], "checks": m["labels"]}
                for m in reports.values()
            },
            "exhaustive": not problems,
        },
        "assumptions": sorted({a for m in reports.values() for a in m["entry"]["assume"] + m["suite"].trusted}),
        "wall_s": round(time.time() - T0, 2),
        "violations": len(viols),
    }
    if evidence:
        json.dump(ev, open(os.path.join(evd, f"{prop}.json"), "w"), indent=1)
    for ln in lines:
        print(ln)
    if code == 0 and problems:
        code = 2
    for p in problems[:20]:
        print("ERROR:" if code == 2 else "note:", p)
    print(f"{prop} {tier}: {tot('paths')} paths, {tot('steps')} instructions, {tot('checks_proved')}+{tot('checks_concrete')} assertions, {smt('queries')} queries ({smt('secs'):.1f} s), {validated} traces validated, {len(viols)} violations, {len(known)} known, {time.time() - T0:.1f} s -> exit {code}")
    return code


def replay(path):
    d = json.load(open(path))
    s = R.Suite(d["suite"])
    e = s.entries[d["entry"]]
    ok, outs = confirm(s, e, {"nd": d["inputs"], "label": d["label"], "kind": d["kind"]}, Natives(d["tier"]))
    print(json.dumps(outs, indent=1))
    return 1 if ok else 0


def main():
    a = sys.argv[1:]
    if a[0] == "--replay":
        return replay(a[1])
    tier = a[1] if len(a) > 1 else os.environ.get("VERIF_TIER", "quick")
    want = ("quick", "both") if tier == "quick" else ("quick", "both", "thorough")
    todo = []
    if a[0].startswith("--entry"):
        return 2
    if ":" in a[0]:
        sn, en = a[0].split(":")
        s = R.Suite(sn)
        todo = [(s, e) for n, e in s.entries.items() if n == en or en == "*"]
        return decide(a[0].replace(":", "_"), todo, tier, False)
    for n in R.suites():
        s = R.Suite(n)
        for e in s.entries.values():
            if a[0] in e["props"] and e["tier"] in want:
                todo.append((s, e))
    if not todo:
        raise CheckError(f"no harness for {a[0]}")
    return decide(a[0], todo, tier)


if __name__ == "__main__":
    try:
        sys.exit(main())
    except CheckError as x:
        print("ERROR:", x)
        sys.exit(2)
