#!/usr/bin/env python3
"""Decide one property on /repo's current source:  run.py <property> [--tier quick|thorough]"""
import argparse
import importlib
import json
import os
import sys
import time
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.setrecursionlimit(20000)

from engine.program import AnalysisBroken  # noqa: E402
from rules.base import Check, REPO  # noqa: E402
from rules.registry import REGISTRY  # noqa: E402


def known_findings(pid):
    out = []
    f = os.path.join(HERE, "known_findings.txt")
    if os.path.exists(f):
        for line in open(f):
            if line.startswith("known: "):
                d = json.loads(line[len("known: "):])
                if d["property"] == pid:
                    out.append(d)
    return out


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("property")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"), choices=["quick", "thorough"])
    a = ap.parse_args()
    pid = a.property
    t0 = time.time()
    seed = int(os.environ.get("VERIF_SEED", "1"))
    modname, technique = REGISTRY[pid]
    ev_dir = os.environ.get("VERIF_EVIDENCE") or os.path.join(HERE, "evidence")
    os.makedirs(ev_dir, exist_ok=True)
    report = os.path.join(ev_dir, f"{pid}.report.txt")
    try:
        c = Check(pid, a.tier)
        mod = importlib.import_module("rules." + modname)
        try:
            getattr(mod, "check_" + pid)(c)
        except AnalysisBroken as e:      # what was decided before stays decided; the rest is not claimed
            if not sum(c.ob.values()) and not c.viol:
                raise
            c.undecided(next(iter(c.minimum), pid), "-", f"the rest of the check gave up: {e}")
        # vacuity: a rule that matches nothing passes for ever
        for r, m in c.minimum.items():
            undecided = sum(1 for u in c.und if u[0] == r)
            if c.ob[r] + undecided < m and not c.viol:
                c.undecided(r, "-", f"only {c.ob[r]} instances found, {m} confirmed by hand on the reference tree")
        if not sum(c.ob.values()) and not c.viol:
            raise AnalysisBroken("no rule found anything to decide")
    except AnalysisBroken as e:
        print(f"ANALYSIS-BROKEN property={pid} {e}")
        return 2
    known = known_findings(pid)
    new = []
    for v in c.viol:
        k = next((k for k in known if k["rule"] == v["rule"] and k["site"] == v["site"]), None)
        if k:
            print(f"KNOWN-FINDING: property={pid} {k['what']}")
        else:
            new.append(v)
    wall = round(time.time() - t0, 2)
    with open(report, "w") as f:
        f.write(f"property {pid}: {len(new)} violation(s)\n")
        for v in new:
            f.write(f"\n[{v['rule']}] {v['site']}\n  {v['message']}\n  rule: {c.rules.get(v['rule'], '')}\n")
            if v["exit"]:
                f.write(f"  path ends: {v['exit']}\n")
            for e in v["path"]:
                f.write(f"    {e}\n")
        for r, s, w in c.und:
            f.write(f"\nundecided [{r}] {s}: {w}\n")
    evidence = {
        "property": pid, "tier": a.tier, "seed": seed, "level": "other",
        "coverage": {
            "explanation": technique,
            "repository": REPO,
            "modules_parsed": len(c.p.modules),
            "functions_analysed": len(c.functions),
            "functions": sorted(c.functions)[:200],
            "paths_enumerated": c.paths,
            "rule_instances_decided": sum(c.ob.values()),
            "instances_per_rule": dict(c.ob),
            "rules": c.rules,
            "undecided": [{"rule": r, "site": s, "reason": w} for r, s, w in c.und],
            "samples": c.samples,
            "findings": [{"rule": v["rule"], "site": v["site"], "message": v["message"]} for v in new],
        },
        "wall_s": wall,
        "violations": len(new),
    }
    with open(os.path.join(ev_dir, f"{pid}.json"), "w") as f:
        json.dump(evidence, f, indent=1)
    for v in new:
        print(f"  [{v['rule']}] {v['site']}: {v['message']}")
    if new:
        print(f"VIOLATION property={pid} replay={report}")
        return 1
    print(f"OK property={pid} instances={sum(c.ob.values())} functions={len(c.functions)} paths={c.paths} "
          f"undecided={len(c.und)} wall={wall}s")
    return 0


if __name__ == "__main__":
    try:
        rc = main()
    except Exception:
        traceback.print_exc()
        rc = 3
    sys.exit(rc)
