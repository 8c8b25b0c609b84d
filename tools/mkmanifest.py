#!/usr/bin/env python3
import json, os
from plan import CHECKS, STEPS
MODELS = {"C19": ["JPool", "MC_History"], "C20": ["JCache", "JPool", "MC_Sched", "MC_Pairs"]}


def models(p):
    l = list(MODELS.get(p, []))
    for st in STEPS.get(p, (0, []))[1]:
        n = {"plan": lambda: st[2] or st[1], "model": lambda: st[1], "programs": lambda: "MC_Programs", "values": lambda: "MC_Table, MC_Values"}.get(st[0], lambda: None)()
        if n:
            l.append(n)
    return ", ".join(dict.fromkeys(l)) or "-"

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(V + "/properties.jsonl")]
NOTE = ("TLC judges every recorded call of the real code against the executable TLA+ specification (bounded sampling of "
        "types, values and options; exhaustive only within the bounded models named in the evidence). Trusted: TLC, the "
        "harness's description of values by reflection, strconv for the shortest decimal digits of floats.")
checks, na = [], []
for p in props:
    if p["id"] in CHECKS:
        checks.append({"property": p["id"], "quick_cmd": f"./check.sh {p['id']} --tier quick",
                       "thorough_cmd": f"./check.sh {p['id']} --tier thorough",
                       "evidence_file": f"evidence/{p['id']}.json",
                       "technique": "TLA+ specification checked with TLC: bounded models (" + models(p["id"]) + ") whose behaviours are replayed into the real code, and trace validation of recorded calls",
                       "level": "model_checking", "level_note": NOTE})
    else:
        na.append({"property": p["id"], "reason": "check not built yet"})
json.dump({"version": 1, "setup_cmd": "./setup.sh", "checks": checks, "not_applicable": na,
           "notes": "One runner (tools/check.py) for all checks; see DESIGN.md."},
          open(V + "/MANIFEST.json", "w"), indent=1)
print(len(checks), "checks", [x["property"] for x in na])
