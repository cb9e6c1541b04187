#!/usr/bin/env python3
"""writes MANIFEST.json from the table below and properties.jsonl"""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
TLA = "TLA+ specification checked with TLC; executions of the real code recorded under a controlled scheduler and validated against it"
SEQ = "TLA+ specification checked with TLC; generated call histories run in the real code and validated against it"
NOTE_C = ("Exhaustive for the specification within the configured constants. The code is bound to it by trace validation: every recorded execution "
          "(random, PCT and preemption-bounded depth-first schedules, deterministic per seed) must be a behaviour of the specification. Assumes sequentially consistent memory.")
NOTE_S = ("Exhaustive for the specification within the configured constants. The code is bound to it by trace validation: every recorded history of calls and results "
          "must be a behaviour of the specification. Histories are generated from a seed, so inputs beyond those generated are not covered.")
claims = json.load(open(os.path.join(V, "tools/claims.json")))
m = {"version": 1, "setup_cmd": "python3 check.py --setup", "checks": [], "not_applicable": []}
for p in props:
    i = p["id"]
    if i in claims["claimed"]:
        k = claims["claimed"][i]
        m["checks"].append({"property": i, "quick_cmd": "python3 check.py " + i, "thorough_cmd": "VERIF_TIER=thorough python3 check.py " + i,
            "technique": TLA if k["kind"] == "c" else SEQ, "level": k.get("level", "model_checking"), "level_note": (NOTE_C if k["kind"] == "c" else NOTE_S) + " " + k.get("note", "")})
    else:
        m["not_applicable"].append({"property": i, "reason": claims["na"].get(i, "not yet bound to the code: its specification and conformance check are still being built")})
m["notes"] = "VERIF_TIER selects the depth; VERIF_SEED every random choice; VERIF_REPO (development only) another tree to check. See DESIGN.md."
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
