#!/usr/bin/env python3
"""Write properties.jsonl and MANIFEST.json from vlib/catalog.py."""
import json, os, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, ROOT)
from vlib.catalog import PROPS, NOT_APPLICABLE

with open(ROOT + "/properties.jsonl", "w") as f:
    for p in PROPS:
        f.write(json.dumps({k: p[k] for k in ("id", "title", "statement", "quantifier", "why_tests_cant", "anchors")}) + "\n")
checks, na = [], list(NOT_APPLICABLE)
for p in PROPS:
    if os.path.exists("%s/checks/%s.py" % (ROOT, p["id"])):
        checks.append({"property": p["id"], "quick_cmd": "bash run.sh %s quick" % p["id"],
                       "thorough_cmd": "bash run.sh %s thorough" % p["id"],
                       "evidence_file": "evidence/%s.json" % p["id"],
                       "technique": p["technique"], "level": "exploration", "level_note": p["note"]})
    elif p["id"] not in [n["property"] for n in na]:
        na.append({"property": p["id"], "reason": "check not built yet"})
json.dump({"version": 1, "setup_cmd": "bash setup.sh", "checks": checks, "not_applicable": na,
           "notes": "Runtime monitoring of the real code of /repo's working tree (imported in place, no bytecode). No hooks in "
                    "/repo: instrumentation wraps public calls from the harness."},
          open(ROOT + "/MANIFEST.json", "w"), indent=1)
for p in PROPS:
    assert len(p["title"]) <= 80, p["id"]
    n = p["statement"].count(". ") + 1
    assert n <= 3, (p["id"], n)
