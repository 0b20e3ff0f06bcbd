#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from checks.py and properties.jsonl."""
import json, os, sys
HERE = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
sys.path.insert(0, HERE)
from checks import CHECKS, NOTES, TECHNIQUE, NOT_APPLICABLE
props = [json.loads(l)["id"] for l in open(os.path.join(HERE, "properties.jsonl"))]
m = {"version": 1, "setup_cmd": "python3 run.py setup", "checks": [], "not_applicable": []}
for p in props:
    if p in CHECKS:
        m["checks"].append({"property": p, "quick_cmd": "python3 run.py %s --tier quick" % p,
                            "thorough_cmd": "python3 run.py %s --tier thorough" % p,
                            "evidence_file": "evidence/%s.json" % p, "technique": TECHNIQUE[p],
                            "level": "model_checking", "level_note": NOTES[p]})
    else:
        m["not_applicable"].append({"property": p, "reason": NOT_APPLICABLE.get(p, "check still being built")})
m["notes"] = "Model checking of the real code: run.py builds /repo's current sources with a harness and enumerates every choice sequence within the stated bounds (harness/common/explore.hpp). rand() is replaced at link time; /repo carries no hooks. Known and repaired defects: known_findings.jsonl."
json.dump(m, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
