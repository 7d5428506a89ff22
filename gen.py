#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the definitions below."""
import json, os
V = os.path.dirname(os.path.abspath(__file__))
P = []
NA = []


def prop(id, title, statement, over, qtext, why, files, mech, technique, note, state=(), na=None):
    P.append(dict(id=id, title=title, statement=statement, quantifier={"over": over, "text": qtext}, why_tests_cant=why,
                  anchors={"files": files, "mechanism": [{"name": a, "where": b} for a, b in mech],
                           "state": [{"name": a, "meaning": b} for a, b in state]}))
    if na:
        NA.append({"property": id, "reason": na})
    else:
        P[-1]["_m"] = (technique, note)


exec(open(os.path.join(V, "props.py")).read())

with open(os.path.join(V, "properties.jsonl"), "w") as f:
    for p in P:
        f.write(json.dumps({k: v for k, v in p.items() if k != "_m"}) + "\n")
m = {"version": 1, "setup_cmd": "python3 run.py --setup",
     "checks": [{"property": p["id"], "quick_cmd": "python3 run.py " + p["id"], "thorough_cmd": "python3 run.py " + p["id"],
                 "technique": p["_m"][0], "level": "other", "level_note": p["_m"][1]} for p in P if "_m" in p],
     "not_applicable": NA,
     "notes": "No hooks in /repo. Every check parses /repo's working tree (clang 18 libTooling extractor, tool/extract.cpp) and decides statically."}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(P), "properties,", len(m["checks"]), "claimed")
