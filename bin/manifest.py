#!/usr/bin/env python3
"""writes MANIFEST.json from properties.jsonl, plans.py and texts.py"""
import json, os, sys
sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import plans, texts
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
checks, na = [], []
for p in props:
    i = p["id"]
    if i in plans.PLANS and i not in texts.NOT_APPLICABLE:
        checks.append({
            "property": i, "quick_cmd": "python3 bin/run.py %s quick" % i, "thorough_cmd": "python3 bin/run.py %s thorough" % i, "evidence_file": "evidence/%s.json" % i,
            "technique": "symbolic execution of the compiled code (LLVM IR) with an SMT solver (Z3)", "level": texts.LEVEL,
            "level_note": "Bounded. Covered: %s. Outside: %s. Trusted: the executor's reading of LLVM IR (finished paths are rerun natively), Z3, rustc." % (texts.BOUNDS[i], texts.OUTSIDE[i]),
        })
    else:
        na.append({"property": i, "reason": texts.NOT_APPLICABLE.get(i, "check under construction")})
m = {"version": 1, "setup_cmd": "python3 bin/build.py", "checks": checks, "not_applicable": na,
     "notes": "No hooks in /repo: the harness uses the public API only. known-findings.txt lists the defects found and repaired."}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
