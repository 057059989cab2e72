#!/usr/bin/env python3
"""writes MANIFEST.json from checks/props.py and properties.jsonl"""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "checks"))
import props
P = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
checks = []; na = []
for p in P:
    i = p["id"]
    s = props.PROPS.get(i)
    if s is None:
        na.append({"property": i, "reason": props.NOT_APPLICABLE.get(i, "no check has been built for this property yet")}); continue
    note = ("Every path of the listed real functions (compiled from /repo to LLVM IR on each run) is executed with symbolic inputs; the SMT solver (and, for polynomial identities, a rational normal form checked by it where small) "
            "decides each assertion for all values within the bounds: " + s["bounds"] + ". Counterexamples are replayed on the natively compiled code before they are reported. "
            "Trusted: the IR executor, real arithmetic in place of rounding floating point, the run-time library stand-ins" + ("; " + s["trust"] if s.get("trust") else "") + ".")
    checks.append({"property": i, "quick_cmd": "./check %s quick" % i, "thorough_cmd": "./check %s thorough" % i, "evidence_file": "evidence/%s.json" % i,
                   "technique": "symbolic execution of the LLVM IR of the real code with SMT (z3) over real and integer arithmetic", "level": "model_checking", "level_note": note})
json.dump({"version": 1, "setup_cmd": "python3 tools/setup.py", "checks": checks, "not_applicable": na,
           "notes": "Engine in engine/, harnesses in harness/, list of checks and bounds in checks/props.py; see DESIGN.md."}, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks", len(na), "not applicable")
