"""Writes MANIFEST.json from the properties that have a check (harness/props/cXX.py)."""
import importlib
import json
import os
import sys

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
LEVEL_NOTE = ("Model checking of the TLA+ specification within its stated bounds, plus conformance: every recorded run of the real code must be "
              "the behaviour the specification allows. Exhaustive on the model's bounded domain; on the code it covers the scenarios replayed "
              "(model-generated and seeded random). Trusts TLC, the scenario driver and the specification's reading of the standards.")
checks, na = [], []
for p in props:
    pid = p["id"]
    f = os.path.join(V, "harness", "props", pid.lower() + ".py")
    if os.path.exists(f):
        m = importlib.import_module("harness.props." + pid.lower())
        checks.append({
            "property": pid,
            "quick_cmd": f"./check {pid}",
            "thorough_cmd": f"VERIF_TIER=thorough ./check {pid}",
            "technique": getattr(m, "TECHNIQUE", "TLA+ specification: TLC model checking, model-generated scenarios replayed into the code, TLC trace validation of what the code did"),
            "level": getattr(m, "LEVEL", "model_checking"),
            "level_note": getattr(m, "LEVEL_NOTE", LEVEL_NOTE),
        })
    else:
        na.append({"property": pid, "reason": "Specification and conformance check not built yet."})
out = {
    "version": 1,
    "setup_cmd": "true",
    "checks": checks,
    "not_applicable": na,
    "notes": "TLA+ specifications in tla/, checked with TLC; harness/ drives the real code and validates its traces. No hooks in /repo: everything is observed through the public API.",
}
json.dump(out, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "claimed")
