#!/usr/bin/env python3
"""MANIFEST.json from checks.py and properties.jsonl"""
import json, os, sys
V = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
sys.path.insert(0, V)
from checks import CHECKS
props = [json.loads(l) for l in open(V + "/properties.jsonl")]
NA = {}
checks = []; na = []
for p in props:
    i = p["id"]
    if i in CHECKS:
        c = CHECKS[i]
        checks.append(dict(property=i, quick_cmd="python3 run.py %s quick" % i, thorough_cmd="python3 run.py %s thorough" % i,
                           evidence_file="evidence/%s.json" % i, technique=c["technique"] or "bounded-exhaustive exploration of the real code against a reference model",
                           level=c["level"], level_note=c["note"] or "Bounded: holds for every case within the stated bounds; says nothing beyond them."))
    else:
        na.append(dict(property=i, reason=NA.get(i, "not built yet")))
m = dict(version=1, setup_cmd="python3 run.py setup", checks=checks, not_applicable=na,
         notes="Each check compiles its harness with /repo's working tree (build output in /verif/build, git-ignored), explores its whole bounded case space and re-runs a failing case alone before it reports it. No hooks in /repo.")
json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1)
print(len(checks), "checks,", len(na), "not claimed")
