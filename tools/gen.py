#!/usr/bin/env python3
import json, os, sys, glob
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from props import P
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(V + "/properties.jsonl", "w") as f:
    for p in P:
        f.write(json.dumps({"id": p["id"], "title": p["title"], "statement": p["statement"], "quantifier": {"over": p["over"], "text": p["text"]},
                            "why_tests_cant": p["why"], "anchors": {"files": p["files"], "mechanism": [{"name": a, "where": b} for a, b in p["mech"]]}}) + "\n")
        for q in p["files"]: assert os.path.exists("/repo/"+q), (p["id"], q)
        assert len(p["title"]) <= 80, p["title"]
m = {"version": 1, "setup_cmd": "python3 engine/driver.py setup", "checks": [], "not_applicable": [],
     "notes": "no hooks in /repo: the checks compile /repo's sources themselves with an instrumenting compiler pass (engine/SymPass.cpp)"}
for p in P:
    if p["na"]:
        m["not_applicable"].append({"property": p["id"], "reason": p["na"]})
    else:
        cmd = "python3 engine/driver.py check %s " % p["id"]
        if glob.glob(V + "/pyharness/%s_*.py" % p["id"]):
            tech = "symbolic execution of the real Python code (path exploration over proxies) + Z3"
        else:
            tech = "symbolic execution of the real code (instrumented LLVM IR, fork per branch) + Z3"
        m["checks"].append({"property": p["id"], "quick_cmd": cmd + "quick", "thorough_cmd": cmd + "thorough", "evidence_file": "evidence/%s.json" % p["id"],
                            "technique": p["technique"] or tech, "level": "model_checking", "level_note": p["note"]})
json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1)
