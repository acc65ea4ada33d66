#!/usr/bin/env python3
"""Writes MANIFEST.json from spec.py and properties.jsonl."""
import json, os
from spec import CHECKS
V = os.path.dirname(os.path.abspath(__file__))
props = [json.loads(l) for l in open(V + "/properties.jsonl")]
NA = {"K22": "the Gaussian mixture engine is unfinished upstream (its run ends in exit(911) before any result exists), so there is no behaviour to explore"}
TECH = {"value": "exhaustive enumeration of small inputs and configurations on the real code, stepwise agreement with a reference model",
        "sched": "stateless model checking of the real code under a controlled scheduler with bounded deviations",
        "rng": "exhaustive enumeration of every random draw and small input on the real code against a reference model",
        "ops": "exhaustive enumeration of operation sequences on the real code against a reference model",
        "faults": "exhaustive fault injection: every call to the system of every small run of the real code fails in turn, under a controlled scheduler",
        "configs": "exhaustive enumeration of command lines on the real programs against the library called with the same options"}
checks, na = [], []
for p in props:
    i = p["id"]
    if i in CHECKS:
        c = CHECKS[i]
        checks.append(dict(property=i, quick_cmd=f"python3 check.py {i} quick", thorough_cmd=f"python3 check.py {i} thorough",
            technique="model checking: " + TECH[c.get("technique", "value")], level="exploration",
            level_note="Holds for every case within the stated bounds (evidence lists them); beyond them nothing is claimed. " + "Trusts: " + "; ".join(c["assumptions"]) + ".",
            evidence_file=f"evidence/{i}.json"))
    else: na.append(dict(property=i, reason=NA.get(i, "no check built yet")))
m = dict(version=1, setup_cmd="python3 -c 'import vlib'",
    hooks=dict(guard="KNOR_VERIF_MIN_TASK_ROWS", enable="-DKNOR_VERIF_MIN_TASK_ROWS=2 on every compile of /repo's sources (vlib.py)", source_commits=["955ea51dbe28e0f6fa8cb6cc61866b679a3206fd"]),
    checks=checks, not_applicable=na)
json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1)
print(len(checks), "checks", len(na), "not applicable")
