#!/usr/bin/env python3
"""rewrite the table of planted bugs in DESIGN.md from seeded/*/meta.json"""
import os, json, glob, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
by = {}
for f in sorted(glob.glob(V + "/seeded/*/meta.json")):
    by.setdefault(json.load(open(f))["property"], []).append("`%s`" % os.path.basename(os.path.dirname(f)))
rows = "| caught by | planted bugs |\n|---|---|\n" + "".join("| %s | %s |\n" % (k, ", ".join(v)) for k, v in sorted(by.items()))
p = V + "/DESIGN.md"
s = open(p).read()
if "SEED_TABLE" in s:
    s = s.replace("SEED_TABLE", "<!-- seeds -->\n<!-- /seeds -->")
s = re.sub(r"<!-- seeds -->\n.*?<!-- /seeds -->", lambda m: "<!-- seeds -->\n" + rows + "<!-- /seeds -->", s, flags=re.S)
open(p, "w").write(s)
