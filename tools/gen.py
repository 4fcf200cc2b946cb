#!/usr/bin/env python3
"""Generates properties.jsonl and MANIFEST.json from tools/props.json (one place to edit)."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = json.load(open(V + "/tools/props.json"))
checks = json.load(open(V + "/engine/checks.json"))
with open(V + "/properties.jsonl", "w") as f:
    for p in P:
        q = {k: p[k] for k in ("id", "title", "statement", "quantifier", "why_tests_cant", "anchors")}
        assert len(p["title"]) <= 80, p["id"]
        f.write(json.dumps(q) + "\n")
NOTE = ("Deductive proof of the instantiated templates of /repo's current headers against contracts/*: every obligation is "
        "discharged by z3/cvc5 for all inputs and all iterations (inferred, checked loop invariants). Trusted: clang's C++ to IR "
        "translation and the IR passes listed in the evidence, engine/*.py, the solvers, the contract text. ")
m = {"version": 1, "setup_cmd": "python3-vt -c 'import z3'", "checks": [], "not_applicable": [],
     "notes": "hooks: none. See DESIGN.md; known-findings.txt lists repaired defects."}
for p in P:
    if p.get("na"):
        m["not_applicable"].append({"property": p["id"], "reason": p["na"]})
        continue
    assert p["id"] in checks, p["id"]
    m["checks"].append({"property": p["id"], "quick_cmd": f"python3-vt engine/check.py {p['id']}",
                        "thorough_cmd": f"python3-vt engine/check.py {p['id']} --tier thorough",
                        "technique": "contract-based deductive verification (VCs from the LLVM IR of the real code, z3/cvc5)",
                        "level": p.get("level", "proof"), "level_note": NOTE + p.get("note", "")})
json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1)
