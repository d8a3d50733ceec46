#!/usr/bin/env python3
"""writes MANIFEST.json: the claimed properties and the reasons for the others"""
import json, os
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T = "contract-based deductive verification: contracts on the functions of /repo, path-wise verification conditions generated from go/ssa of the current source, discharged by z3/cvc5"
claimed = json.load(open(os.path.join(here, "tools", "claimed.json")))
props = [json.loads(l) for l in open(os.path.join(here, "properties.jsonl"))]
checks, na = [], []
for p in props:
    i = p["id"]
    if i in claimed["claimed"]:
        checks.append({"property": i, "quick_cmd": "./check.sh %s quick" % i, "thorough_cmd": "./check.sh %s thorough" % i,
                       "technique": T, "level": "proof", "level_note": claimed["claimed"][i]})
    else:
        na.append({"property": i, "reason": claimed["not_applicable"].get(i, "contracts for the functions of this property are not finished")})
m = {"version": 1, "setup_cmd": "bash ./setup.sh", "checks": checks, "not_applicable": na}
json.dump(m, open(os.path.join(here, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(here, "MANIFEST.json"), "a").write("\n")
