#!/usr/bin/env python3-vt
"""Regenerates /verif/MANIFEST.json from the property modules present."""
import json, os, sys
sys.dont_write_bytecode = True
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
import importlib
checks, missing = [], []
for line in open(os.path.join(V, "properties.jsonl")):
    p = json.loads(line)
    pid = p["id"]
    if not os.path.exists(os.path.join(V, "asiprop/props/%s.py" % pid.lower())):
        missing.append({"property": pid, "reason": "check not built yet"})
        continue
    m = importlib.import_module("asiprop.props.%s" % pid.lower())
    note = getattr(m, "NOTE", "Generated-input search against an oracle written from the SCSI standards, not from the code; no exhaustiveness is claimed.")
    checks.append(dict(property=pid, quick_cmd="python3-vt run.py %s --tier quick" % pid, thorough_cmd="python3-vt run.py %s --tier thorough" % pid,
                       evidence_file="evidence/%s.json" % pid, technique=getattr(m, "TECHNIQUE", "property-based testing (Hypothesis) against a reference encoder/decoder"),
                       level=getattr(m, "LEVEL", "exploration"), level_note=note))
man = dict(version=1, setup_cmd="python3-vt run.py --selfcheck", checks=checks, not_applicable=missing,
           notes="Checks drive the code in /repo/src under the PyPy interpreter it is built for; the oracle and the generators run in python3-vt. VERIF_SEED seeds every random choice.")
json.dump(man, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks;", len(missing), "not built")
