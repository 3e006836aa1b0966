#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from claims.py."""
import json, os, sys
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, here)
import claims

def prop(c):
    return {"id": c["id"], "title": c["title"], "statement": c["statement"],
            "quantifier": {"over": c["over"], "text": c["text"]}, "why_tests_cant": c["why"],
            "anchors": {"files": c["files"], "mechanism": [{"name": m, "where": ", ".join(c["files"])} for m in c["mechanism"]], "state": c["state"]}}

cs = list(claims.CLAIMS.values())
with open(f"{here}/properties.jsonl", "w") as f:
    for c in cs + claims.NA_PROPS:
        assert len(c["title"]) <= 80, c["title"]
        f.write(json.dumps(prop(c)) + "\n")
m = {"version": 1, "setup_cmd": "bash setup.sh",
     "checks": [{"property": c["id"], "quick_cmd": f"python3 check.py {c['id']} quick",
                 "thorough_cmd": f"python3 check.py {c['id']} thorough",
                 "evidence_file": f"evidence/{c['id']}.json",
                 "technique": "symbolic execution of the compiled program with an SMT solver (z3), counterexamples replayed on the bytecode",
                 "level": "model_checking", "level_note": c["level_note"]} for c in cs],
     "not_applicable": [{"property": c["id"], "reason": c["reason"]} for c in claims.NA_PROPS],
     "notes": "No hooks in /repo: the checks compile the tree as it is."}
if getattr(claims, "HOOKS", None):
    m["hooks"] = claims.HOOKS
json.dump(m, open(f"{here}/MANIFEST.json", "w"), indent=1)
open(f"{here}/MANIFEST.json", "a").write("\n")
