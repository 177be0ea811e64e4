#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and the properties gens.py can check."""
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import gens
R = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
ps = [json.loads(l) for l in open(os.path.join(R, "properties.jsonl"))]
NA = {}
if os.path.exists(os.path.join(R, "lib", "na.json")): NA = json.load(open(os.path.join(R, "lib", "na.json")))
TECH = "TLA+ specification checked with TLC; traces recorded from the real code under a controlled MPI are validated against its actions"
checks, na = [], []
for p in ps:
    i = p["id"]
    if i in gens.PROPS:
        P = gens.PROPS[i]
        note = P["note"] or "Every recorded event must be the action of spec/Trace.tla that its kind names; the state shown by all processes is compared in full."
        mcs = sorted({m["module"] for m in P["mc"]})
        if mcs: note += " Exhaustive models: %s." % ", ".join(mcs)
        note += " Sampled scripts and schedules (seeded), bounded models. Trusts TLC, the compiler, the controllable MPI (harness/fakempi.cpp) and the partitioner stand-ins."
        checks.append({"property": i, "quick_cmd": "python3 lib/check.py " + i, "thorough_cmd": "python3 lib/check.py %s --thorough" % i,
                       "technique": TECH, "level": "model_checking", "level_note": note})
    else: na.append({"property": i, "reason": NA.get(i, "check under construction")})
m = {"version": 1, "setup_cmd": "python3 lib/build.py",
     "hooks": {"guard": "none", "enable": "No hook in /repo: the sources are compiled unchanged with harness/ (a controllable MPI, a script interpreter) and a linker --wrap of Ngraph::migrate.", "source_commits": []},
     "checks": checks, "not_applicable": na}
json.dump(m, open(os.path.join(R, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks;", [x["property"] for x in na])
