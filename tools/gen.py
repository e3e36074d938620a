#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the table in tools/props.py (keeps them in step)."""
import json, os, sys
sys.path.insert(0, os.path.dirname(__file__)); V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
from props import P, NA
with open(V + "/properties.jsonl", "w") as f:
    for p in P:
        f.write(json.dumps({"id": p["id"], "title": p["title"], "statement": p["statement"], "quantifier": {"over": p["over"], "text": p["q"]}, "why_tests_cant": p["why"],
            "anchors": {"files": p["files"], "mechanism": [{"name": n, "where": w} for n, w in p["mech"]], **({"observe_at": p["obs"]} if "obs" in p else {})}}) + "\n")
NOTE = ("Bounded model checking of the code in /repo/include (compiled to LLVM IR on every run): for the scenarios and bounds in the evidence file every interleaving of visible operations and every input value is covered by solver queries; "
        "violations are replayed on the natively compiled code. Trusted: clang's IR, the engine in engine/, the models of pthread/libc/libstdc++ runtime functions in rt/. Outside: larger bounds, stale values of relaxed atomics beyond happens-before race detection, reuse of freed addresses.")
m = {"version": 1, "setup_cmd": "./setup.sh", "checks": [{"property": p["id"], "quick_cmd": f"./check.py {p['id']}", "thorough_cmd": f"./check.py {p['id']} --tier thorough", "technique": "symbolic execution of the compiled code with SMT (bounded model checking over schedules and inputs)", "level": "model_checking", "level_note": (p["note"] + " " if "note" in p else "") + NOTE} for p in P if p["id"] not in NA],
     "not_applicable": [{"property": k, "reason": v} for k, v in NA.items()], "notes": "See DESIGN.md. known_findings.json lists repaired and recorded defects."}
json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1); open(V + "/MANIFEST.json", "a").write("\n")
