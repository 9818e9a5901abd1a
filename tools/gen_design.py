#!/usr/bin/env python3
"""DESIGN.md from tools/design_tmpl.md, known_findings.json and tools/matrix.json"""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
t = open(V + "/tools/design_tmpl.md").read()
f = json.load(open(V + "/known_findings.json"))["findings"]
t = t.replace("@FIXED@", "\n".join("* %s %s — %s" % (x["property"], x["commit"], x["what"]) for x in f if x["status"] == "fixed"))
m = []
if os.path.exists(V + "/tools/matrix.json"):
    rows = json.load(open(V + "/tools/matrix.json"))
    m = ["| change | property | what it breaks | caught by |", "|---|---|---|---|"] + ["| %s | %s | %s | %s |" % tuple(r) for r in rows]
t = t.replace("@MATRIX@", "\n".join(m) or "(to come)")
open(V + "/DESIGN.md", "w").write(t)
