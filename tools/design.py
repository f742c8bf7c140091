#!/usr/bin/env python3
"""Fill the generated sections of DESIGN.md (between markers) from props_data.py, checks.py and seeded/."""
import os, re, json, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__))); sys.path.insert(0, V)
import props
from checks import CHECKS
P = props.P if hasattr(props, "P") else None
rows = [json.loads(l) for l in open(V + "/properties.jsonl")]
man = {c["property"]: c for c in json.load(open(V + "/MANIFEST.json"))["checks"]} if "checks" in json.load(open(V + "/MANIFEST.json")) else {}
t = ""
for r in rows:
    i = r["id"]
    if i not in CHECKS: continue
    t += "### %s — %s\n\n" % (i, r["title"])
    t += "* Monitored: harness `%s`%s.\n" % (", ".join(s for b in CHECKS[i]["builds"] for s in b["src"]), " with `" + ", ".join(x for b in CHECKS[i]["builds"] for x in b.get("repo", [])) + "` of /repo" if any(b.get("repo") for b in CHECKS[i]["builds"]) else "")
    t += "* Workload: %s.\n" % CHECKS[i]["rule"]
    t += "* Oracle: %s.\n" % (man.get(i, {}).get("technique", ""))
    cost = CHECKS[i].get("cost")
    if cost: t += "* Cost: %s.\n" % cost
    if CHECKS[i].get("design"): t += "* " + CHECKS[i]["design"] + "\n"
    t += "\n"
s = "| bug | property | needs | caught by the property's check |\n|---|---|---|---|\n"
res = json.load(open(V + "/tools/catches.json")) if os.path.exists(V + "/tools/catches.json") else {}
for i in sorted(os.listdir(V + "/seeded")):
    m = json.load(open(V + "/seeded/" + i + "/meta.json"))
    s += "| %s | %s | %s | %s |\n" % (i, m["property"], m["needs"], res.get(i, "?"))
d = open(V + "/DESIGN.md").read()
def put(d, tag, body):
    a, b = "<!-- %s -->" % tag, "<!-- /%s -->" % tag
    if "@@%s@@" % tag in d: return d.replace("@@%s@@" % tag, a + "\n" + body + b)
    return d[:d.index(a)] + a + "\n" + body + d[d.index(b):]
d = put(d, "TABLE", t); d = put(d, "SEEDS", s)
open(V + "/DESIGN.md", "w").write(d)
