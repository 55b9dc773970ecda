#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json for the properties which have a check."""
import json
import os
import sys

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
from vlib import checks  # noqa

NOTE = ("Every recorded behaviour of the implementation is a complete path of the TLA+ machine: TLC consumes the recorded events, output and outcomes one by one, "
        "and evaluates the invariants of the specification in every state. Bounded by the generated programs (systematic products plus random ones from VERIF_SEED); "
        "trusts TLC, the encoding of values in the Go driver and the specification.")
TECH = "TLA+ abstract machine (LispCore) checked with TLC against traces recorded from the implementation"
TECHS = getattr(checks, "TECHS", {})
NOTES = getattr(checks, "NOTES", {})
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
man = {"version": 1, "setup_cmd": "bash tools/setup.sh", "checks": [], "not_applicable": []}
for p in props:
    i = p["id"]
    if i in checks.CHECKS:
        man["checks"].append({"property": i, "quick_cmd": "python3 -m vlib.check %s" % i, "thorough_cmd": "VERIF_TIER=thorough python3 -m vlib.check %s" % i,
                              "technique": TECHS.get(i, TECH), "level": "model_checking", "level_note": NOTES.get(i, NOTE)})
    else:
        man["not_applicable"].append({"property": i, "reason": "no check built yet"})
json.dump(man, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(man["checks"]), "checks")
