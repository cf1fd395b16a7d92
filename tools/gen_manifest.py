#!/usr/bin/env python3
"""Writes MANIFEST.json from checks/table.py (run by hand after a change)."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
from checks import table
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
A = "explicit-state model checking of the real code: all operation histories up to a bound, states deduplicated"
TECH = {
    "C10": A + "; leak, double free and use after free monitored by shadow memory",
    "C11": A + "; every fault point of every transition enumerated",
    "C12": A + "; simulated worst-case collection at every allocation",
    "C16": "stateless model checking of the real code: all thread interleavings up to a preemption bound, happens-before race detection",
    "C17": "stateless model checking of the real code: all thread interleavings up to a preemption bound, linearizability",
    "C18": "stateless model checking of the real code: all thread interleavings up to a preemption bound, and all allocate/deallocate histories up to a bound",
}
NOTE = {}
NA = table.NOT_APPLICABLE if hasattr(table, "NOT_APPLICABLE") else {}
m = {"version": 1, "setup_cmd": "true",
     "hooks": {"guard": "none", "enable": "No hook is needed: the harnesses compile the unmodified headers with compiler instrumentation.", "source_commits": []},
     "checks": [], "not_applicable": [], "notes": "See DESIGN.md. Engine in engine/, harnesses in harness/, bounds per property in checks/."}
for p in props:
    i = p["id"]
    if i in table.REGISTRY:
        m["checks"].append({"property": i, "quick_cmd": "python3 run.py %s quick" % i, "thorough_cmd": "python3 run.py %s thorough" % i,
                            "technique": TECH.get(i, A), "level": "model_checking",
                            "level_note": table.NOTES.get(i, "exhaustive within the bounds listed in the evidence file (coverage.runs); the code under test is executed, there is no separate model of it")})
    else:
        m["not_applicable"].append({"property": i, "reason": NA.get(i, "check under construction")})
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(m["checks"]), "checks")
