#!/usr/bin/env python3
"""addprop.py < JSON  (compact form) -> tools/props.json"""
import json, sys, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = json.load(open(V + "/tools/props.json"))
for n in json.load(sys.stdin):
    e = {"id": n["id"], "title": n["title"], "statement": n["statement"],
         "quantifier": {"over": n["over"], "text": n["text"]}, "why_tests_cant": n["why"],
         "anchors": {"files": ["include/lexy/" + f if not f.startswith(("include", "src")) else f for f in n["files"]],
                     "mechanism": [{"name": a, "where": "include/lexy/" + b} for a, b in n["mech"]]}}
    for k in ("note", "na", "level"):
        if k in n:
            e[k] = n[k]
    P = [p for p in P if p["id"] != n["id"]] + [e]
P.sort(key=lambda p: p["id"])
json.dump(P, open(V + "/tools/props.json", "w"), indent=1)
