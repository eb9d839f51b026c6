"""Rewrites the table of planted changes at the end of DESIGN.md from seeded/*/meta.json."""
import json, glob, os
P = "/verif/DESIGN.md"
MARK = "<!-- planted changes -->"
s = open(P).read()
rows = ["| change | property | needs | caught by |", "|---|---|---|---|"]
missed = {}
for line in open("/verif/tools/missed.txt") if os.path.exists("/verif/tools/missed.txt") else []:
    k, v = line.split(None, 1)
    missed[k] = v.strip()
for f in sorted(glob.glob("/verif/seeded/*/meta.json")):
    i = f.split("/")[-2]
    m = json.load(open(f))
    rows.append("| %s | %s | %s | %s |" % (i, m["property"], m["needs"], missed.get(i, m["property"])))
t = MARK + "\n" + "\n".join(rows) + "\n"
s = s.replace("SEEDTABLE", t) if MARK not in s else s[:s.index(MARK)] + t
open(P, "w").write(s)
