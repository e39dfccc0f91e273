#!/usr/bin/env python3
"""check.py <property id> [--tier quick|thorough]: decide one property from the source in /repo"""
import argparse
import importlib
import json
import os
import pkgutil
import sys
import time
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.setrecursionlimit(20000)
from pathflow import model, report, rules as rulepkg          # noqa: E402

RULES, SELFTESTS, EXPLAIN = {}, {}, {}


def load_rules():
    for m in pkgutil.iter_modules(rulepkg.__path__):
        mod = importlib.import_module("pathflow.rules." + m.name)
        for pid, fn in getattr(mod, "RULES", {}).items():
            RULES.setdefault(pid, []).append(fn)
        EXPLAIN.update(getattr(mod, "EXPLAIN", {}))


def known():
    p = os.path.join(HERE, "known_findings.json")
    if not os.path.exists(p):
        return []
    return [k for k in json.load(open(p)) if isinstance(k, dict)]


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("pid")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--repo", default=None)
    ap.add_argument("--no-evidence", action="store_true")
    a = ap.parse_args()
    t0 = time.time()
    load_rules()
    if a.pid not in RULES:
        print("ERROR unknown property", a.pid)
        return 2
    ctx = None
    try:
        prog = model.load(a.repo)
        ctx = report.Check(a.pid, prog, a.tier)
        for fn in RULES[a.pid]:
            try:
                fn(ctx)
            except model.AnalysisBroken as e:
                ctx.undecided.append(str(e))
        if sum(ctx.obl.values()) == 0:
            raise model.AnalysisBroken("no obligations were generated; " + "; ".join(ctx.undecided))
    except model.AnalysisBroken as e:
        print("ERROR property=%s analysis lost its anchors: %s" % (a.pid, e))
        return 2
    except Exception:
        traceback.print_exc()
        print("ERROR property=%s analysis failed" % a.pid)
        return 2
    kn = {k["key"]: k for k in known() if k.get("property") == a.pid and k.get("status") == "known"}
    new = [f for k, f in ctx.findings.items() if k not in kn]
    old = [f for k, f in ctx.findings.items() if k in kn]
    for f in old:
        print("KNOWN-FINDING: property=%s %s [%s] %s" % (a.pid, kn[f.key]["what"], f.key, f.where))
    evd = os.path.join(HERE, "evidence")
    replay = os.path.join(evd, a.pid + ".findings.json")
    if not a.no_evidence:
        os.makedirs(evd, exist_ok=True)
        json.dump([f.as_dict() for f in ctx.findings.values()], open(replay, "w"), indent=1)
        ev = {"property": a.pid, "tier": a.tier if a.tier in ("quick", "thorough") else "quick",
              "seed": int(os.environ.get("VERIF_SEED", "1") or 1), "level": "other",
              "coverage": {
                  "explanation": EXPLAIN.get(a.pid, "path-sensitive dataflow rules over the current source"),
                  "counts": {"obligations": sum(ctx.obl.values()), "paths_enumerated": ctx.paths_seen,
                             "functions_analysed": len(ctx.funcs), "rules": len(ctx.obl),
                             "known_findings": len(old)},
                  "obligations_per_rule": ctx.obl, "functions": sorted(ctx.funcs), "notes": ctx.notes, "not_decided": ctx.undecided},
              "wall_s": round(time.time() - t0, 2), "violations": len(new)}
        json.dump(ev, open(os.path.join(evd, a.pid + ".json"), "w"), indent=1)
    for f in new:
        print("%s: [%s] %s: %s" % (f.where, f.rule, f.construct, f.msg))
        for w in f.witness:
            print("      " + w)
    for u in ctx.undecided:
        print("NOT-DECIDED property=%s %s" % (a.pid, u))
    if new:
        print("VIOLATION property=%s replay=%s" % (a.pid, replay))
        return 1
    print("OK property=%s obligations=%d paths=%d functions=%d (%.1fs)" % (
        a.pid, sum(ctx.obl.values()), ctx.paths_seen, len(ctx.funcs), time.time() - t0))
    return 0


if __name__ == "__main__":
    sys.exit(main())
