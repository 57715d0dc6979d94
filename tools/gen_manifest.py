#!/usr/bin/env python3
"""writes MANIFEST.json from properties.jsonl and the checks that exist"""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NA = {
 "C39": "a statement about the global optimum found by scipy's iterative optimiser over random restarts: it is not a bounded computation of graphicle's own code (the objectives and gradients the optimiser is given are decided under C31)",
}
TECH = {}
NOTE = {}
exec(open(os.path.join(V, "tools", "notes.py")).read()) if os.path.exists(os.path.join(V, "tools", "notes.py")) else None
checks, na = [], []
for l in open(os.path.join(V, "properties.jsonl")):
    p = json.loads(l)["id"]
    if p in NA:
        na.append({"property": p, "reason": NA[p]})
    elif os.path.exists(os.path.join(V, "checks", p.lower() + ".py")):
        checks.append({"property": p, "quick_cmd": "./run.py %s --tier quick" % p, "thorough_cmd": "./run.py %s --tier thorough" % p,
                       "technique": TECH.get(p, "symbolic execution of the real Python source with z3, every counterexample and path witness replayed on the real package"),
                       "level": "model_checking", "level_note": NOTE.get(p, "Bounded: holds for every value of the symbolic inputs within the sizes listed in the evidence (bounds); reals instead of IEEE floats; numpy/numba/scipy models trusted but cross-checked by replaying every path's witness on the real libraries."),
                       "evidence_file": "evidence/%s.json" % p})
    else:
        na.append({"property": p, "reason": "no check built yet"})
json.dump({"version": 1, "setup_cmd": "./run.py --self-test", "checks": checks, "not_applicable": na,
           "notes": "see DESIGN.md"}, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
