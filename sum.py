#!/usr/bin/env python3
"""Summary of the last run of a property's jobs (development aid)."""
import glob, json, sys
for p in sys.argv[1:]:
    for f in sorted(glob.glob("/verif/build/out/%s/*.json" % p)):
        d = json.load(open(f))
        print("%-22s paths=%-7d q=%-6d solver=%.1f wall=%.1f err=%d viol=%d" % (d["entry"] + "/" + str(d["param"]), d["paths"], d["queries"], d["solver_s"], d["wall_s"], len(d["errors"]), len(d["violations"])))
        for e in d["errors"][:2]: print("   E", e[:300])
        for v in d["violations"][:6]: print("   V", v["kind"], v["msg"][:150], "in", v["stack"][:2] and v["stack"][0][:60], v["input"][:60])
