#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from the check table and the property list."""
import json, os, re
H = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
props = [json.loads(l)["id"] for l in open(os.path.join(H, "properties.jsonl"))]
table = dict(re.findall(r'"(\w+)": \("(\w+)"', open(os.path.join(H, "check")).read()))
NOTES = json.load(open(os.path.join(H, "tools", "notes.json")))
checks, na = [], []
for p in props:
    if p in table:
        n = NOTES[p]
        checks.append({"property": p, "quick_cmd": "./check " + p, "thorough_cmd": "VERIF_TIER=thorough ./check " + p,
                       "evidence_file": "evidence/%s.json" % p, "technique": n[0], "level": "model_checking",
                       "level_note": n[1]})
    else:
        na.append({"property": p, "reason": NOTES.get(p, ["", "machinery for this property is not built yet"])[1]})
m = {"version": 1, "setup_cmd": "./setup.sh",
     "hooks": {"guard": "KNP_VERIF_HOOKS", "enable": "no hooks are used: the drivers use public interfaces of the unmodified sources",
               "source_commits": []},
     "checks": checks, "not_applicable": na,
     "notes": "TLA+ with TLC. Every check compiles its driver with /repo's current sources, model checks its specification, and validates traces of the real code against it. VERIF_TIER selects quick or thorough."}
json.dump(m, open(os.path.join(H, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks;", len(na), "not claimed")
