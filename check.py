#!/usr/bin/env python3
"""check.py PROPERTY [--tier quick|thorough]

Decide one property on /repo's current working tree by static analysis.
exit 0: held on everything analysed (listed known findings are printed); exit 1: VIOLATION line(s);
exit 2: the analysis itself could not run."""
import argparse
import json
import os
import sys
import time
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path[:0] = [os.path.join(HERE, "engine"), os.path.join(HERE, "rules")]


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER") or "quick", choices=["quick", "thorough"])
    ap.add_argument("-v", action="store_true")
    a = ap.parse_args()
    t0 = time.time()
    import threading
    threading.stack_size(512 * 1024 * 1024)
    rc = [2]

    def go():
        try:
            rc[0] = run(a, t0)
        except SystemExit as e:
            rc[0] = e.code
        except BaseException:
            traceback.print_exc()
    t = threading.Thread(target=go)
    t.start()
    t.join()
    sys.stdout.flush()
    os._exit(rc[0])


def run(a, t0):
    import build
    import lib
    import registry
    seed = int(os.environ.get("VERIF_SEED") or 1)
    ent = registry.PROPS[a.prop]
    try:
        out = build.dumps()
    except build.BuildError as e:
        print("cannot analyse the tree: %s" % e, file=sys.stderr)
        return 2
    ctx = lib.Ctx(a.prop, out, a.tier, seed)
    for f in ent["checks"]:
        try:
            f(ctx)
        except lib.Missing as e:
            ctx.ob("anchor", str(e), False, "public entry %s is gone: the property has no subject any more" % e, "missing")
        except lib.Budget as e:
            ctx.ob("budget", "%s.%s" % (f.__module__, f.__name__), False, "analysis budget exceeded: " + str(e), "budget")
    known = []
    p = os.path.join(HERE, "known-findings.jsonl")
    if os.path.exists(p):
        with open(p) as fh:
            known = [json.loads(x) for x in fh if x.strip()]
    listed = {k["key"]: k for k in known if k["property"] == a.prop and k.get("status") == "known"}
    new = [v for v in ctx.viol if v["key"] not in listed]
    old = [v for v in ctx.viol if v["key"] in listed]
    for v in old:
        print("KNOWN-FINDING: property=%s %s" % (a.prop, listed[v["key"]]["what"]))
    evd = os.environ.get("VERIF_EVID") or os.path.join(HERE, "evidence")
    os.makedirs(evd, exist_ok=True)
    ok = sum(1 for _, _, o in ctx.obs if o)
    per = {}
    for r, w, o in ctx.obs:
        per.setdefault(r, [0, 0])
        per[r][0] += 1
        per[r][1] += o
    if not ctx.obs:
        print("no obligation was generated", file=sys.stderr)
        return 2
    ev = {
        "property": a.prop, "tier": a.tier, "seed": seed, "level": ent["level"],
        "coverage": {
            "explanation": ent["explain"],
            "rules": {r: {"text": ctx.rules.get(r, ""), "obligations": n, "discharged": d} for r, (n, d) in sorted(per.items())},
            "obligations": len(ctx.obs), "discharged": ok,
            "functions_analysed": sorted(ctx.fns),
            "paths_and_outcomes": ctx.outcomes,
            "dataflow_steps": ctx.steps,
            "samples": sorted({"%s @ %s" % (r, w) for r, w, _ in ctx.obs})[:40],
            "checker_cmd": "python3 check.py %s --tier %s" % (a.prop, a.tier),
            "trusted_base": registry.TRUSTED,
            "known_findings": [v["key"] for v in old],
        },
        "assumptions": ent.get("assumptions", []) + registry.ASSUME,
        "violations": len(new),
        "wall_s": round(time.time() - t0, 3),
    }
    with open(os.path.join(evd, a.prop + ".json"), "w") as fh:
        json.dump(ev, fh, indent=1)
    if a.v:
        for r, (n, d) in sorted(per.items()):
            print("  rule %-12s %4d obligations, %4d discharged" % (r, n, d))
        print("  %d functions, %d outcomes, %d steps, %.2fs" % (len(ctx.fns), ctx.outcomes, ctx.steps, time.time() - t0))
    if new:
        rp = os.path.join(evd, a.prop + ".violations.json")
        with open(rp, "w") as fh:
            json.dump(new, fh, indent=1)
        for v in new:
            print("  %s in %s%s: %s" % (v["rule"], v["where"], " (%s)" % v["at"] if v["at"] else "", v["detail"]))
        print("VIOLATION property=%s replay=%s" % (a.prop, rp))
        return 1
    return 0


if __name__ == "__main__":
    main()
