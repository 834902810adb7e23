#!/usr/bin/env python3
"""Write MANIFEST.json from the registered checks and properties.jsonl"""
import json, os, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(ROOT, "harness"))
from props import PROPS
checks, na = [], []
DEF = "runtime monitors over generated agglomerations of the real headers, built with ASan+UBSan and checked libstdc++"
for ln in open(os.path.join(ROOT, "properties.jsonl")):
    d = json.loads(ln)
    i = d["id"]
    if i in PROPS:
        p = PROPS[i]
        checks.append({
            "property": i,
            "quick_cmd": "python3 run.py %s quick" % i,
            "thorough_cmd": "python3 run.py %s thorough" % i,
            "technique": p.get("technique", DEF),
            "level": "exploration",
            "level_note": p.get("note", "held on the generated executions reported in the evidence; inputs are sampled, "
                                "sizes bounded (usually up to 60 cells, some to 1800), not exhaustive"),
        })
    else:
        na.append({"property": i, "reason": "driver not written yet"})
m = {"version": 1, "setup_cmd": "true", "checks": checks, "not_applicable": na,
     "notes": "Every check compiles its driver from /repo's working tree; case = f(VERIF_SEED, case number). "
              "Exit 2 means no verdict. See DESIGN.md."}
with open(os.path.join(ROOT, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
