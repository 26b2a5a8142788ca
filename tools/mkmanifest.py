#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and the checks that exist."""
import json, os
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(here, "properties.jsonl"))]
NA = {}
FAULT = {"P06", "P07"}
TECH = {
 "default": "bounded exhaustive model checking of the implementation: every input/history of the stated alphabet is executed on the real code and compared to an independent reference model",
 "P01": "explicit-state exploration of all open/close/read histories up to a depth on the real readers, against a two-state lifecycle model",
 "P02": "exhaustive exploration of all reader histories up to a depth on the real readers, compared to a fresh reader",
 "P03": "exhaustive interleaving exploration of concurrent consumers on the real readers",
 "P04": "exhaustive exploration of operation sequences on the real class against a reference window model",
 "P06": "exhaustive crash-point enumeration: every truncation of every sample",
 "P07": "exhaustive fault enumeration: every read call times every fault kind",
 "P08": "exhaustive enumeration of link/size mutations with a read-budget monitor",
}
checks, na = [], []
for p in props:
    pid = p["id"]
    if os.path.exists(os.path.join(here, "mc", "props", pid.lower() + ".py")):
        checks.append({"property": pid, "quick_cmd": f"bin/check {pid} --tier quick", "thorough_cmd": f"bin/check {pid} --tier thorough",
                       "technique": TECH.get(pid, TECH["default"]),
                       "level": "fault_enumeration" if pid in FAULT else "model_checking",
                       "level_note": "bounded; bounds and counts are in the evidence file"})
    else:
        na.append({"property": pid, "reason": NA.get(pid, "check under construction")})
m = {"version": 1, "setup_cmd": "/opt/venv/bin/python -c 'import dtfabric, yaml'", "checks": checks, "not_applicable": na,
     "notes": "All checks run the code in /repo directly (pure Python, nothing to build); scratch files live in /dev/shm and are removed."}
json.dump(m, open(os.path.join(here, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(here, "MANIFEST.json"), "a").write("\n")
