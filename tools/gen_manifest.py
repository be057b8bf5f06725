#!/usr/bin/env python3
"""Source of /verif/MANIFEST.json (run from /verif: python3 tools/gen_manifest.py)."""
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from table import T
ids = [json.loads(l)["id"] for l in open("properties.jsonl")]
m = {"version": 1, "setup_cmd": "bash tools/setup.sh",
     "checks": [{"property": i, "quick_cmd": "./check %s quick" % i, "thorough_cmd": "./check %s thorough" % i,
                 "evidence_file": "evidence/%s.json" % i, "technique": T[i]["technique"], "level": "exploration",
                 "level_note": T[i]["note"]} for i in ids if i in T],
     "not_applicable": [{"property": i, "reason": "No check yet; the family applies."} for i in ids if i not in T],
     "notes": "Design, findings and detection matrix: DESIGN.md. Replay a saved failure with ./check replay ID FILE."}
with open("MANIFEST.json", "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
