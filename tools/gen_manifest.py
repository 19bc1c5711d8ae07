#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from configs.py and properties.jsonl."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
sys.dont_write_bytecode = True
import configs
NA = {}
LEVEL = {"C16": "fault_enumeration"}
have = configs.props()
checks, na = [], []
note = ("Explicit-state search over the real code: every history of environment operations up to the depth in the evidence file, and every "
        "single deviation (injected event, failed call, short transfer) the configuration allows, is executed on the code compiled from /repo "
        "under a simulated kernel, with a reference model and monitors judging every system call and message. Assumes the simulated kernel "
        "behaves like Linux where DESIGN.md says so; nothing is claimed beyond the stated bounds.")
for l in open(os.path.join(V, "properties.jsonl")):
    p = json.loads(l)
    i = p["id"]
    if i in have:
        checks.append({
            "property": i,
            "quick_cmd": "python3 run.py check %s quick" % i,
            "thorough_cmd": "python3 run.py check %s thorough" % i,
            "evidence_file": "evidence/%s.json" % i,
            "technique": "model checking: " + getattr(configs, "TECH", {}).get(i, "stateless/explicit-state exploration of the implementation under a simulated kernel"),
            "level": "model_checking",
            "level_note": note,
        })
    else:
        na.append({"property": i, "reason": NA.get(i, "not yet checked")})
m = {"version": 1, "setup_cmd": "python3 run.py setup", "checks": checks, "not_applicable": na,
     "notes": "No hooks in /repo: the code under test is compiled unmodified and its libc imports are redirected at link time. "
              "'python3 run.py replay FILE' replays a violation with a trace."}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
