#!/usr/bin/env python3
"""Regenerates /verif/MANIFEST.json from properties.jsonl and checks.py."""
import json
import os
import sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
sys.dont_write_bytecode = True
import checks
props = [json.loads(l) for l in open(V + "/properties.jsonl")]
man = dict(version=1, setup_cmd="python3 tools/setup.py", checks=[],
           not_applicable=[],
           notes="All checks run the real vmmlib headers from /repo under an "
                 "exhaustive explorer (mc/mc.hpp); no hooks in /repo are "
                 "needed. known-findings.json lists recorded findings and "
                 "repaired defects. See DESIGN.md.")
for p in props:
    s = checks.CHECKS.get(p["id"])
    if s is None:
        man["not_applicable"].append(dict(
            property=p["id"], reason=checks.NOT_APPLICABLE.get(
                p["id"], "check not built yet")))
        continue
    man["checks"].append(dict(
        property=p["id"],
        quick_cmd="python3 run.py %s --tier quick" % p["id"],
        thorough_cmd="python3 run.py %s --tier thorough" % p["id"],
        evidence_file="evidence/%s.json" % p["id"],
        technique=s.get("technique", checks.TECHNIQUE),
        level="model_checking",
        level_note=s["note"] if "note" in s else
        "Exhaustive within these bounds, on the real code: " + s["bounds"] +
        ". Trusts the reference model in the harness, the compiler, and that "
        "values outside the alphabet behave like those inside."))
json.dump(man, open(V + "/MANIFEST.json", "w"), indent=1)
open(V + "/MANIFEST.json", "a").write("\n")
print(len(man["checks"]), "checks;", len(man["not_applicable"]), "n/a")
