#!/usr/bin/env python3
"""Writes MANIFEST.json: a check for every property that has a harness module, the rest not_applicable."""
import glob, json, os, re
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(f"{ROOT}/properties.jsonl")]
NA = json.load(open(f"{ROOT}/bin/not_applicable.json"))
TECH = "bounded model checking (Kani/CBMC SAT on the crate's own MIR), counterexamples replayed natively"
NOTE = json.load(open(f"{ROOT}/bin/level_notes.json"))
checks, na = [], []
for p in props:
    i = p["id"]
    have = glob.glob(f"{ROOT}/kani/src/h/p{i[1:]}*.rs") or os.path.exists(f"{ROOT}/bin/{i.lower()}.py")
    if have and i not in NA:
        cmd = f"python3 bin/check.py {i}" if not os.path.exists(f"{ROOT}/bin/{i.lower()}.py") else f"python3 bin/{i.lower()}.py"
        checks.append(dict(property=i, quick_cmd=cmd, thorough_cmd=f"VERIF_TIER=thorough {cmd}", evidence_file=f"evidence/{i}.json",
                           technique=NOTE.get(i, {}).get("technique", TECH), level=NOTE.get(i, {}).get("level", "model_checking"),
                           level_note=NOTE.get(i, {}).get("note", "") + NOTE["*"]))
    else:
        na.append(dict(property=i, reason=NA.get(i, "no check built yet")))
m = dict(version=1, setup_cmd="python3 bin/setup.py",
         hooks=dict(guard="--cfg bdv_small_nodes, --cfg bdv_slots", enable="RUSTFLAGS='--cfg bdv_small_nodes --cfg bdv_slots' (set by bin/check.py; harnesses named big_* keep the real node size)",
                    source_commits=["1b1798f", "f04fbb4"]),
         checks=checks, not_applicable=na,
         notes="Every check compiles /repo's current working tree together with the harnesses in kani/ and lets CBMC's SAT solver decide them; see DESIGN.md.")
json.dump(m, open(f"{ROOT}/MANIFEST.json", "w"), indent=1)
print(len(checks), "checks", len(na), "not applicable")
