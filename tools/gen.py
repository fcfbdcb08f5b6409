#!/usr/bin/env python3
"""Write properties.jsonl and MANIFEST.json from tools/props.py, so that they stay in step."""
import json
import os
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(HERE, "tools"))
from props import PROPS, NOT_APPLICABLE

TRUST = ("Trusts rustc's MIR and trait resolution, the models of std and dependency calls in engine/models.py and the fixpoint "
         "engine; quick covers the default and the all-features configuration, thorough every feature combination.")


def line(p):
    return {"id": p["id"], "title": p["title"], "statement": p["statement"],
            "quantifier": {"over": p.get("over", ["inputs"]), "text": p["quant"]},
            "why_tests_cant": p["why"],
            "anchors": {"files": p["files"], "mechanism": [{"name": n, "where": w} for n, w in p["mech"]]}}


with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
    for p in PROPS + NOT_APPLICABLE:
        f.write(json.dumps(line(p)) + "\n")

checks = []
for p in PROPS:
    if not os.path.exists(os.path.join(HERE, "rules", p["id"] + ".py")):
        sys.exit("no rule for " + p["id"])
    checks.append({"property": p["id"], "quick_cmd": "python3 check.py %s --tier quick" % p["id"],
                   "thorough_cmd": "python3 check.py %s --tier thorough" % p["id"],
                   "evidence_file": "evidence/%s.json" % p["id"], "technique": p["technique"], "level": "proof",
                   "level_note": p["note"] + " " + TRUST})
json.dump({"version": 1, "setup_cmd": "python3 setup.py", "checks": checks,
           "not_applicable": [{"property": p["id"], "reason": p["reason"]} for p in NOT_APPLICABLE],
           "notes": "All checks read rustc's MIR of /repo's working tree through driver/main.rs and never run the crate."},
          open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
