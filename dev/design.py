#!/usr/bin/env python3
"""Writes /verif/DESIGN.md from DESIGN.in, the job table, the seeded bugs and their results."""
import glob, json, os, sys
V = "/verif"
sys.path.insert(0, V)
from props import PROPS
from spec import PROPERTIES

ORACLE = json.load(open(V + "/dev/oracle.json"))
t = open(V + "/dev/DESIGN.in").read()
rows, bounds = [], []
for p in PROPERTIES:
    i = p["id"]
    P = PROPS[i]
    ents = []
    for j in P["jobs"]:
        e = j["entry"].split("_", 1)[1] + (" (thorough)" if j.get("thorough") else "")
        if e not in ents:
            ents.append(e)
    ents = [e for e in ents if not (e.endswith(" (thorough)") and e[:-11] in ents)]
    w = ORACLE["seconds"].get(i, "")
    rows.append("| %s | %s: %s | %s | %s |" % (i, p["title"], ", ".join(ents), ORACLE["oracle"][i], w))
    bounds.append("* **%s** Within: %s Outside: %s." % (i, P["bounds"].rstrip(".") + ".", P["outside"].rstrip(".")))
t = t.replace("@TABLE@", "\n".join(rows)).replace("@BOUNDS@", "\n".join(bounds)).replace("@KANI@", ORACLE["kani"])
res = json.load(open(V + "/dev/results.json")) if os.path.exists(V + "/dev/results.json") else {}
s = ["| change | needs | caught by |", "|---|---|---|"]
for f in sorted(glob.glob(V + "/seeded/*/meta.json")):
    i = f.split("/")[-2]
    m = json.load(open(f))
    s.append("| %s | %s | %s |" % (i, m["needs"], ", ".join(res.get(i, [])) or "not run"))
t = t.replace("@SEEDED@", "\n".join(s))
open(V + "/DESIGN.md", "w").write(t)
