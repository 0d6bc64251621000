#!/usr/bin/env python3
"""Regenerate MANIFEST.json from bin/plan.py."""
import json, os, sys
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(H, "bin"))
sys.dont_write_bytecode = True
import plan
ids = [json.loads(l)["id"] for l in open(os.path.join(H, "properties.jsonl"))]
na = getattr(plan, "NOT_APPLICABLE", {})
m = dict(version=1, setup_cmd="python3 bin/check.py setup", checks=[
    dict(property=i, quick_cmd=f"python3 bin/check.py {i} quick", thorough_cmd=f"python3 bin/check.py {i} thorough",
         evidence_file=f"evidence/{i}.json", technique=plan.CHECKS[i]["technique"], level=plan.CHECKS[i]["level"],
         level_note=plan.CHECKS[i]["note"]) for i in ids if i in plan.CHECKS],
    not_applicable=[dict(property=i, reason=na.get(i, "check not built yet")) for i in ids if i not in plan.CHECKS],
    notes="Monitors drive the public API of the library built from /repo's working tree; no hooks in /repo are needed.")
json.dump(m, open(os.path.join(H, "MANIFEST.json"), "w"), indent=1)
