#!/usr/bin/env python3
"""Writes MANIFEST.json from bin/checks.py and properties.jsonl."""
import json, os, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(HERE, "bin"))
from checks import CHECKS, PENDING
ids = [json.loads(l)["id"] for l in open(os.path.join(HERE, "properties.jsonl"))]
TECH = "TLA+ specification checked with TLC; sessions generated from it run on the library and the recorded traces validated against it"
NOTE = ("Every session the specification generates (a seeded random part and a completely enumerated small part) is executed on the library built "
        "from the working tree and each outcome is judged by the specification in TLC; equality of values is decided by outward-rounded interval "
        "arithmetic at sample points (Java module IReal, trusted), so an alarm is a definite difference, and silence covers the sessions explored.")
m = {"version": 1, "setup_cmd": "bin/setup",
     "hooks": {"guard": "none", "enable": "the checks use the public API only; no hooks are needed", "source_commits": []},
     "checks": [{"property": i, "quick_cmd": f"bin/check {i} --tier quick", "thorough_cmd": f"bin/check {i} --tier thorough",
                 "technique": CHECKS[i].get("technique", TECH), "level": "model_checking", "level_note": CHECKS[i].get("note", NOTE)} for i in ids if i in CHECKS],
     "not_applicable": [{"property": i, "reason": PENDING.get(i, "no check yet")} for i in ids if i not in CHECKS]}
json.dump(m, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
print(len(m["checks"]), "checks", [x["property"] for x in m["not_applicable"]])
