#!/usr/bin/env python3
"""writes MANIFEST.json from properties.jsonl and checks/profiles.py"""
import json, os, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(ROOT, "checks"))
from profiles import PROFILES, TITLES
NA = {}
checks = []
for pid in TITLES:
    if pid not in PROFILES:
        NA.setdefault(pid, "check under construction")
        continue
    checks.append({
        "property": pid,
        "quick_cmd": f"python3 checks/run.py {pid} --tier quick",
        "thorough_cmd": f"python3 checks/run.py {pid} --tier thorough",
        "evidence_file": f"evidence/{pid}.json",
        "technique": PROFILES[pid].get("technique", "TLA+ specification: bounded models checked by TLC and replayed in the code, and TLC validation of recorded executions of the real containers against it"),
        "level": "model_checking",
        "level_note": PROFILES[pid].get("note", "Every explored execution of the code is compared, call by call, with the result and state the specification prescribes; holds for the configurations, histories and fault points explored. Trusts the driver's projection through the public API, and TLC."),
    })
m = {"version": 1, "setup_cmd": "true",
     "hooks": {"guard": "none", "enable": "no hooks: the public API exposes the abstract state", "source_commits": []},
     "checks": checks,
     "not_applicable": [{"property": p, "reason": r} for p, r in NA.items()],
     "notes": "see DESIGN.md"}
json.dump(m, open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)
