#!/usr/bin/env python3
"""Records how long each harness took in the last run (evidence/*.json), to start long ones first."""
import glob, json, os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
p = f"{ROOT}/bin/costs.json"
out = json.load(open(p)) if os.path.exists(p) else {}
for f in sorted(glob.glob(f"{ROOT}/evidence/C*.json")):
    e = json.load(open(f))
    for b in e.get("coverage", {}).get("bounds", []):
        out.setdefault(e["property"], {})[b["harness"].split("::")[-1]] = round(b["seconds"])
json.dump(out, open(p, "w"), indent=0, sort_keys=True)
