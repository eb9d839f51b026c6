#!/usr/bin/env python3
"""Write properties.jsonl and MANIFEST.json from proptext.py and props.py."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.realpath(__file__)))
sys.path.insert(0, V)
from proptext import P
from props import CHECKS, NOT_APPLICABLE

with open(V + "/properties.jsonl", "w") as f:
    for pid in sorted(P):
        f.write(json.dumps(P[pid]) + "\n")
checks = []
for pid in sorted(CHECKS):
    c = CHECKS[pid]
    checks.append(dict(property=pid, quick_cmd="./check %s" % pid,
                       thorough_cmd="./check %s --thorough" % pid,
                       evidence_file="evidence/%s.json" % pid,
                       technique=c["technique"], level=c["level"], level_note=c["note"]))
na = [dict(property=pid, reason=NOT_APPLICABLE.get(pid, "the machinery for this property has not been built yet"))
      for pid in sorted(P) if pid not in CHECKS]
m = dict(version=1, setup_cmd="./setup", checks=checks, not_applicable=na,
         notes="The checks need no hooks in /repo: they drive the public API of the library built from /repo's working tree.")
json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1)
