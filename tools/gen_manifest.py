#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from checks.py and properties.jsonl."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
from checks import CHECKS
props = [json.loads(l)["id"] for l in open(V + "/properties.jsonl")]
m = {"version": 1, "setup_cmd": "python3 check.py setup", "checks": [], "not_applicable": [],
     "notes": "Property-based testing over generated programs AND generated schedules: the real headers and sources of /repo are compiled with access instrumentation and run on a deterministic scheduler (rt/). No hooks in /repo are needed."}
for p in props:
    if p in CHECKS:
        m["checks"].append({"property": p, "quick_cmd": "python3 check.py %s quick" % p, "thorough_cmd": "python3 check.py %s thorough" % p,
          "evidence_file": "evidence/%s.json" % p, "technique": CHECKS[p].get("technique", "stateful property-based testing with generated schedules against an executable model"),
          "level": "exploration", "level_note": CHECKS[p].get("note", "Random and shrinkable exploration of programs, schedules, virtual time and injected faults on the real code; absence of failures on what was generated, not proof. Trusts the pthread/clock emulation in rt/sim.cpp, clang's access instrumentation and the oracle in h/.")})
    else:
        m["not_applicable"].append({"property": p, "reason": "no check yet in this state of the framework"})
json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1); open(V + "/MANIFEST.json", "a").write("\n")
print(len(m["checks"]), "checks", len(m["not_applicable"]), "not claimed")
