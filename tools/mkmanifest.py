#!/usr/bin/env python3
"""Source of MANIFEST.json (run: python3 tools/mkmanifest.py)."""
import json, os, sys
H = os.path.dirname(os.path.abspath(__file__)) + "/.."
sys.path.insert(0, H)
from registry import CHECKS
props = [json.loads(l) for l in open(H + "/properties.jsonl")]
na = {}
checks = []
for p in props:
    i = p["id"]
    if i in CHECKS:
        c = CHECKS[i]
        checks.append({"property": i, "quick_cmd": "python3 check.py %s --tier quick" % i, "thorough_cmd": "python3 check.py %s --tier thorough" % i,
                       "evidence_file": "evidence/%s.json" % i, "technique": c.get("technique", "property-based testing: structured random generation with shrinking, judged by an independent reference model"),
                       "level": "exploration", "level_note": c["note"] if "note" in c else "generated-input search, no proof; " + c["rule"]})
na_list = [{"property": p["id"], "reason": na.get(p["id"], "check not built yet")} for p in props if p["id"] not in CHECKS]
m = {"version": 1, "setup_cmd": "python3 tools/setup.py", "checks": checks, "not_applicable": na_list,
     "notes": "Every check builds its harness and the repository's sources from /repo's working tree in a scratch directory (ASan+UBSan), runs generated cases in 8 workers, replays any failure three times before reporting it."}
json.dump(m, open(H + "/MANIFEST.json", "w"), indent=1)
print(len(checks), "claimed")
