#!/usr/bin/env python3
"""Writes MANIFEST.json from checks_table.py and properties.jsonl."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
from checks_table import CHECKS
NA = {}
ids = [json.loads(l)["id"] for l in open(V + "/properties.jsonl")]
checks = []
for i in ids:
    if i not in CHECKS:
        continue
    c = CHECKS[i]
    checks.append({"property": i, "quick_cmd": "python3 check.py %s quick" % i, "thorough_cmd": "python3 check.py %s thorough" % i,
                   "technique": c["technique"], "level": c.get("level", "exploration"),
                   "level_note": c.get("level_note") or ("Generated-input search, not a proof. Case: " + c["rule"] + ". Trusted/assumed: " + "; ".join(c.get("assumptions", ["the oracle in the harness"])))})
na = [{"property": i, "reason": NA.get(i, "check not built yet")} for i in ids if i not in CHECKS]
m = {"version": 1, "setup_cmd": "python3 check.py --build-only", "hooks": {"guard": "(none)", "enable": "no hooks: the checks compile /repo's sources unchanged", "source_commits": []},
     "checks": checks, "not_applicable": na,
     "notes": "check.py builds the library from /repo's working tree together with harness/<name>.cpp, runs the search and writes evidence/<id>.json; replay: python3 check.py <id> --replay <file>"}
json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1)
open(V + "/MANIFEST.json", "a").write("\n")
print(len(checks), "checks", [x["property"] for x in na])
