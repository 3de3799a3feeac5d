#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and the scenario files present."""
import glob, json, os
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(H, "properties.jsonl"))]
NOTE = {}
exec(open(os.path.join(H, "tools", "notes.py")).read()) if os.path.exists(os.path.join(H, "tools", "notes.py")) else None
checks, na = [], []
for p in props:
    i = p["id"]
    if glob.glob(os.path.join(H, "scen", i.lower() + "*.cpp")):
        checks.append({
            "property": i,
            "quick_cmd": "python3 run_check.py %s" % i,
            "thorough_cmd": "VERIF_TIER=thorough python3 run_check.py %s --thorough" % i,
            "evidence_file": "evidence/%s.json" % i,
            "technique": NOTE.get(i, ("stateless model checking of the real code: exhaustive interleaving and operation-sequence exploration with state caching",))[0],
            "level": "model_checking",
            "level_note": NOTE.get(i, (None, "All executions of the listed scenarios on the compiled library within the stated preemption and environment bounds (many closed without bound). Trusts the checker's model of threads, mutexes, condition variables, clock and heap; sequentially consistent interleavings plus happens-before race detection; bounded scenario sizes."))[1],
        })
    else:
        na.append({"property": i, "reason": "check not built yet"})
m = {"version": 1, "setup_cmd": "python3 run_check.py --build", "checks": checks, "not_applicable": na,
     "notes": "No hooks in /repo: the checks compile the unmodified sources with thread-sanitizer instrumentation and link them against the checker's own runtime (engine/runtime.cpp)."}
json.dump(m, open(os.path.join(H, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks,", len(na), "not applicable")
