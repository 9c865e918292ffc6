#!/usr/bin/env python3
"""writes MANIFEST.json from the list of claimed properties"""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CLAIMED = open(os.path.join(V, "tools/claimed")).read().split()
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
NOTE = ("Every function listed in the evidence is extracted mechanically from /repo/src on each run and Verus discharges all its obligations, for all inputs and iterations. "
        "Trusted: Verus and Z3, the extractor /verif/tools/vx, the contracts of std operations in specs/prelude.rs, and what DESIGN.md lists for this property.")
checks, na = [], []
for p in props:
    if p["id"] in CLAIMED:
        checks.append(dict(property=p["id"], quick_cmd=f"./check.py {p['id']} quick", thorough_cmd=f"./check.py {p['id']} thorough", evidence_file=f"evidence/{p['id']}.json",
            technique="contract-based deductive verification (Verus) of functions extracted from the source on every run", level="proof", level_note=NOTE))
    else:
        na.append(dict(property=p["id"], reason="not claimed yet: the functions it depends on are not under contract so far"))
json.dump(dict(version=1, setup_cmd="./setup.sh", checks=checks, not_applicable=na, notes="No hooks in /repo: the extractor reads private items from the source."), open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
