#!/usr/bin/env python3
"""Write properties.jsonl and MANIFEST.json from analysis/meta.py."""
import json
import os
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(HERE, "analysis"))
from meta import P, NA

TECH = "static analysis: abstract interpretation of rustc MIR (trace-partitioned, interprocedural) deciding guard, frame, value and message rules"
NOTE = ("Sound for the rules listed in DESIGN.md over every successful path of every entry point of the contracts named, "
        "for all inputs and states: paths are joined, not sampled, and loops are widened. Trusts the library models "
        "(cosmwasm-std, cw-storage-plus, core), rustc's MIR and transaction rollback on error; what the rule does not state "
        "is not decided.")

props, checks, na = [], [], []
for i in sorted(P):
    p = dict(P[i])
    tech, note = p.pop("technique"), p.pop("note")
    assert len(p["title"]) <= 80, (i, len(p["title"]))
    props.append(p)
    if i in NA:
        na.append({"property": i, "reason": NA[i]})
        continue
    if not os.path.exists(os.path.join(HERE, "analysis", "props", i.lower() + ".py")):
        raise SystemExit("no check for " + i)
    cmd = "python3 analysis/check.py " + i
    checks.append({"property": i, "quick_cmd": cmd, "thorough_cmd": cmd, "technique": tech or TECH,
                   "level": "other", "level_note": note or NOTE})
with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
    for p in props:
        f.write(json.dumps(p, ensure_ascii=False) + "\n")
json.dump({"version": 1, "setup_cmd": "python3 tools/extract.py", "checks": checks, "not_applicable": na,
           "notes": "One analysis engine (analysis/) over MIR that a rustc driver (driver/) dumps from /repo's current tree; see DESIGN.md."},
          open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1, ensure_ascii=False)
print(len(checks), "checks,", len(na), "not applicable")
try:
    import jsonschema
except ImportError:
    sys.exit(0)
jsonschema.validate(json.load(open(os.path.join(HERE, "MANIFEST.json"))), json.load(open("/root/.vp/MANIFEST.schema.json")))
s = json.load(open("/root/.vp/PROPERTIES.schema.json"))
for p in props:
    jsonschema.validate(p, s)
