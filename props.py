#!/usr/bin/env python3
"""Source of properties.jsonl and MANIFEST.json:  python3 props.py  rewrites both (only properties with a check are written)."""
import json, os
from checks import CHECKS
V = os.path.dirname(os.path.abspath(__file__))
INP = ["inputs"]; CFG = ["inputs", "configurations"]; HIS = ["inputs", "histories"]
P = {}
def prop(i, title, statement, over, text, why, files, mech, tech, note, observe=None):
    P[i] = dict(id=i, title=title, statement=statement, quantifier={"over": over, "text": text}, why_tests_cant=why,
                anchors={"files": ["src/" + f for f in files], "mechanism": [{"name": n, "where": "src/" + w} for n, w in mech]})
    if observe: P[i]["anchors"]["observe_at"] = observe
    P[i]["_t"] = tech; P[i]["_n"] = note
exec(open(os.path.join(V, "props_data.py")).read())
if __name__ == "__main__":
    ids = sorted(i for i in P if i in CHECKS)
    with open(os.path.join(V, "properties.jsonl"), "w") as f:
        for i in ids: f.write(json.dumps({k: v for k, v in P[i].items() if k[0] != "_"}) + "\n")
    checks = [{"property": i, "quick_cmd": "VERIF_TIER=quick python3 vrun.py " + i, "thorough_cmd": "VERIF_TIER=thorough python3 vrun.py " + i,
               "evidence_file": "evidence/%s.json" % i, "technique": P[i]["_t"], "level": "exploration", "level_note": P[i]["_n"]} for i in ids]
    json.dump({"version": 1, "setup_cmd": "true", "checks": checks, "not_applicable": NA}, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
    missing = [i for i in CHECKS if i not in P]
    print(len(ids), "properties", "without text:" if missing else "", *missing)
