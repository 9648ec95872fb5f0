#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json"""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
NOTE = ("TLC checks every recorded call of generated sessions with the real library against the explicit TLA+ "
        "specification (arguments, results and error reasons), and checks the specification itself on bounded "
        "models. Assurance is for what was explored; trusted are the harness's projection of the library's "
        "values, TLC, and for markdown the event stream of pulldown-cmark.")
import sys
sys.path.insert(0, os.path.join(V, "tools"))
import plan
def tech(i):
    t = ["explicit TLA+ specification, TLC: trace validation of recorded sessions"]
    if i in plan.SCOPES: t.append("exhaustive small scopes enumerated by the specification")
    if i in plan.REPLAYED: t.append("replay of behaviours simulated from the specification")
    if i in plan.MODELS: t.append("model checking of the specification's laws (%s.tla)" % plan.MODELS[i][0][0][0])
    return "; ".join(t)
TECH = {p["id"]: tech(p["id"]) for p in props}
m = {
    "version": 1,
    "setup_cmd": "cd harness && cargo build --offline --quiet",
    "checks": [
        {
            "property": p["id"],
            "quick_cmd": "python3 tools/check.py %s quick" % p["id"],
            "thorough_cmd": "python3 tools/check.py %s thorough" % p["id"],
            "technique": TECH[p["id"]],
            "level": "model_checking",
            "level_note": NOTE,
        }
        for p in props
    ],
    "not_applicable": [],
    "notes": "TLA+ with TLC. No hooks in /repo: the public API exposes the whole state.",
}
with open(os.path.join(V, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
