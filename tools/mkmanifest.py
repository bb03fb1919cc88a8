#!/usr/bin/env python3
"""Writes MANIFEST.json from vlib/plan.py and the notes below."""
import json, os, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
from vlib import plan
hook = "d60bfa5"
full = subprocess.run(["git", "-C", "/repo", "rev-parse", hook], capture_output=True, text=True).stdout.strip()
checks = []
for p in sorted(plan.PLAN):
    checks.append({
        "property": p,
        "quick_cmd": "python3 check.py %s --tier quick" % p,
        "thorough_cmd": "python3 check.py %s --tier thorough" % p,
        "evidence_file": "evidence/%s.json" % p,
        "technique": plan.TECHNIQUE.get(p, "bounded exhaustive stateless exploration of the real code against a reference model"),
        "level": "model_checking",
        "level_note": plan.NOTE.get(p, plan.COMMON_NOTE),
    })
props = [json.loads(l)["id"] for l in open(os.path.join(V, "properties.jsonl"))]
m = {
    "version": 1,
    "setup_cmd": "bash setup.sh",
    "hooks": {"guard": "cambrian_verif", "enable": 'RUSTFLAGS="--cfg cambrian_verif"', "source_commits": [full]},
    "checks": checks,
    "not_applicable": [{"property": p, "reason": plan.NA.get(p, "check not built yet")} for p in props if p not in plan.PLAN],
    "notes": "See DESIGN.md. check.py builds what it needs from /repo's working tree into /verif/build, explores, and writes evidence/<id>.json.",
}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(V, "MANIFEST.json"), "a").write("\n")
