"""Fills the generated tables of DESIGN.md (between the markers) from plans.py, properties.jsonl and seeded/."""
import json
import os
import re
import sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
import plans  # noqa: E402

props = [json.loads(l) for l in open(os.path.join(HERE, "properties.jsonl"))]
man = {c["property"]: c for c in json.load(open(os.path.join(HERE, "MANIFEST.json")))["checks"]}
out = []
for p in props:
    pl = plans.PLANS[p["id"]]
    ev = os.path.join(HERE, "evidence", p["id"] + ".json")
    cost = ""
    if os.path.exists(ev):
        e = json.load(open(ev))
        cost = "%.0f s, %.2g executions (%s)" % (e["wall_s"], e["coverage"]["traces_validated_against_impl"], e["tier"])
    out.append("**%s - %s.** Method: %s. Oracle: %s. Enumerated: %s. Cost: %s.\n" % (p["id"], p["title"], man[p["id"]]["technique"], pl["oracle"], pl["bounds"], cost or "see evidence"))
catch = {}
f = os.path.join(HERE, "vf", "caught.json")
if os.path.exists(f):
    catch = json.load(open(f))
seeds = ["| planted bug | property | needs | caught by |", "|---|---|---|---|"]
sd = os.path.join(HERE, "seeded")
for s in sorted(os.listdir(sd)) if os.path.isdir(sd) else []:
    m = json.load(open(os.path.join(sd, s, "meta.json")))
    seeds.append("| %s | %s | %s | %s |" % (s, m["property"], m["needs"].replace("|", "/"), catch.get(s, "not caught yet")))
d = os.path.join(HERE, "DESIGN.md")
t = open(d).read()
for k, v in (("TABLE", "\n".join(out)), ("SEEDS", "\n".join(seeds))):
    b = "<!-- %s -->\n%s\n<!-- /%s -->" % (k, v, k)
    if "@%s@" % k in t:
        t = t.replace("@%s@" % k, b)
    else:
        t = re.sub(r"<!-- %s -->.*?<!-- /%s -->" % (k, k), lambda m: b, t, flags=re.S)
open(d, "w").write(t)
