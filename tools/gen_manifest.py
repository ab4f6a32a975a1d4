#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json (run: python3 tools/gen_manifest.py)."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
NOT = {}
TODO = []
TECH = "stateless model checking of the implementation: exhaustive schedule enumeration (happens-before state caching, vector-clock race detection) of closed programs over enumerated inputs"
extra = {
 "E01": "inputs above the thresholds are enumerated patterns, one canonical schedule each; a subset of them with all schedules or up to 2 delays",
 "E02": "inputs above the thresholds are enumerated patterns, one canonical schedule each; a subset of them with up to 1 delay",
 "E05": "sizes above the thresholds run on one canonical schedule or with few delays",
 "E04": "races are detected by happens-before, so that one schedule covers all schedules with the same synchronisation order; subsets with up to 2 delays or all schedules",
}
checks, na = [], []
for q in props:
    i = q["id"]
    if i in NOT or i in TODO:
        na.append({"property": i, "reason": NOT.get(i, "check under construction")})
        continue
    note = "Every execution of the real code (instrumented copy of the working tree) within the enumerated inputs and schedules is checked; the evidence lists which programs were explored with all schedules and which within a bound. Trusted: the modelled semantics of goroutines, channels, sync, atomics, context and reflect in mc/rt (compared with native runs of the unmodified code on every run), 64-bit happens-before hashes, and that behaviour outside the enumerated inputs resembles that inside."
    if i in extra:
        note += " Here: " + extra[i] + "."
    checks.append({"property": i, "quick_cmd": "bin/check " + i, "thorough_cmd": "VERIF_TIER=thorough bin/check " + i,
                   "evidence_file": "evidence/%s.json" % i, "technique": TECH, "level": "model_checking", "level_note": note})
m = {"version": 1,
     "setup_cmd": "python3 bin/setup",
     "checks": checks, "not_applicable": na,
     "notes": "No hooks in /repo: the checks instrument a scratch copy of /repo's working tree (mc/inst)."}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(V, "MANIFEST.json"), "a").write("\n")
