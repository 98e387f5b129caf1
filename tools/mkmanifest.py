#!/usr/bin/env python3
"""Write MANIFEST.json from harness/specs.py and properties.jsonl."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__))); sys.path.insert(0, V + "/harness")
from specs import SPECS
NA = {}
props = [json.loads(l) for l in open(V + "/properties.jsonl")]
checks, na = [], []
for p in props:
    i = p["id"]
    if i in SPECS:
        s = SPECS[i]
        checks.append({"property": i, "quick_cmd": "python3 check.py %s quick" % i, "thorough_cmd": "python3 check.py %s thorough" % i,
          "technique": "symbolic execution of the compiled code (LLVM IR) with Z3 deciding every branch and assertion; counterexamples replayed on the real program",
          "level": "model_checking", "level_note": "Bounded: " + s["bounds"] + ((". Outside: " + s["outside"]) if s.get("outside") else "")})
    else: na.append({"property": i, "reason": NA.get(i, "no check yet")})
m = {"version": 1, "setup_cmd": "make -s -C engine", "checks": checks, "not_applicable": na,
     "notes": "check.py compiles /repo's working tree to LLVM IR on every run and executes harness/*.c symbolically with engine/symex; see DESIGN.md. No hooks are used in /repo."}
json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1); print(len(checks), "checks", len(na), "not claimed")
