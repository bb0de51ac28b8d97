#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and groups.py."""
import json, os, sys
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(H, "tools"))
from groups import PROPS
NA = {
    "N01": "pure function of one value: no schedule, clock, I/O, fault or second party for the result to depend on, so a simulator has nothing to decide (its memory and allocation-failure side is V01, which is simulated)",
}
props = [json.loads(l) for l in open(os.path.join(H, "properties.jsonl"))]
checks, na = [], []
for p in props:
    i = p["id"]
    if i in PROPS:
        c = PROPS[i]
        checks.append({
            "property": i,
            "quick_cmd": "python3 check.py %s" % i, "thorough_cmd": "python3 check.py %s --tier thorough" % i,
            "evidence_file": "evidence/%s.json" % i,
            "technique": "deterministic simulation with fault injection: seeded search over schedules and faults, " + c.get("oracle", "invariants and history oracle"),
            "level": "exploration",
            "level_note": c.get("note", "Every run executes the real code of the working tree under the simulator; a pass means no violation in the seeds explored, not a proof. Trusts the simulator's models of pthreads, clocks, allocator and files, and explores sequentially consistent interleavings (plus a happens-before race detector)."),
        })
    else:
        na.append({"property": i, "reason": NA.get(i, "check not built yet")})
m = {"version": 1, "setup_cmd": "python3 check.py --setup", "checks": checks, "not_applicable": na,
     "notes": "No hooks in /repo: the code is compiled from the working tree with compiler instrumentation only (see DESIGN.md). Replay: python3 check.py --replay <file>."}
json.dump(m, open(os.path.join(H, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(H, "MANIFEST.json"), "a").write("\n")
print(len(checks), "checks,", len(na), "not applicable")
