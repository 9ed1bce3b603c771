#!/usr/bin/env python3
"""writes /verif/MANIFEST.json from the checks that exist"""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
TECH = {
    "P16": "runtime monitor: byte snapshots of all reachable buffers and value snapshots of the operands around every operation of the other suites",
    "P13": "runtime monitor: trace of every function looked up or called while loading, judged against the whitelist",
    "P17": "runtime monitor: recorded generator/cache event log checked online against a reference cache model, with injected evictions and failures",
    "P26": "runtime monitor: differential oracle between observed and unobserved twins over random histories",
    "P29": "runtime monitor: histories of assignments to parts against a model of the parts",
    "P28": "runtime monitor: dense-array oracle over random sparse arrays, selections, functions and assignment histories",
    "P27": "runtime monitor: trapped iteration/conversion hooks plus differential oracle under all switch settings",
    "P21": "runtime monitor under fault injection: single corruptions of valid buffers, oracle demands rejection",
}
DEFAULT = "runtime monitor: reference-model oracle over generated layouts, operations and histories run on the real library"
NOTE = "Exploration: seeded random cases over the generators in akmon/layouts.py, judged online by an independent pure-Python model; no exhaustiveness. Trusts Python, Numpy and the model in checks/%s.py."
checks, na = [], []
for p in props:
    i = p["id"]
    if os.path.exists(os.path.join(V, "checks", i.lower() + ".py")):
        checks.append({"property": i, "quick_cmd": "./check.sh %s quick" % i, "thorough_cmd": "./check.sh %s thorough" % i,
                       "evidence_file": "evidence/%s.json" % i, "technique": TECH.get(i, DEFAULT), "level": "exploration",
                       "level_note": NOTE % i.lower()})
    else:
        na.append({"property": i, "reason": "no check built yet"})
m = {"version": 1, "setup_cmd": "./setup.sh", "checks": checks, "not_applicable": na,
     "notes": "Pure Python library: nothing is compiled, no hooks in /repo; the checks import /repo/awkward0 directly. AKMON_REPO can point the machinery at a scratch copy."}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
