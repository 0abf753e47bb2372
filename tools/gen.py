#!/usr/bin/env python3
"""Generate properties.jsonl and MANIFEST.json from rules/props.py and rules/registry.py."""
import json, os, sys
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = [H + "/rules", H + "/engine"]
import props, registry
with open(H + "/properties.jsonl", "w") as f:
    for p in props.P:
        f.write(json.dumps(p) + "\n")
ids = [p["id"] for p in props.P]
assert len(set(ids)) == len(ids)
checks, na = [], []
for i in ids:
    e = registry.PROPS.get(i)
    if e is None:
        na.append({"property": i, "reason": registry.NA.get(i, "no sound static argument has been built for this property yet")})
        continue
    checks.append({"property": i,
                   "quick_cmd": "python3 check.py %s --tier quick" % i,
                   "thorough_cmd": "python3 check.py %s --tier thorough" % i,
                   "evidence_file": "evidence/%s.json" % i,
                   "technique": e.get("technique") or "path-sensitive dataflow (value numbering) over MIR against a decision table",
                   "level": e["level"],
                   "level_note": e["note"]})
assert not set(registry.PROPS) - set(ids), set(registry.PROPS) - set(ids)
m = {"version": 1, "setup_cmd": "python3 engine/build.py", "checks": checks, "not_applicable": na,
     "notes": "Static analysis of /repo's current source (rustc MIR) on every run; no code of /repo is executed. See DESIGN.md."}
with open(H + "/MANIFEST.json", "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
print(len(checks), "claimed;", len(na), "not applicable")
