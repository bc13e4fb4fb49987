#!/usr/bin/env python3
"""Rewrite the list of planted bugs in DESIGN.md from seeded/*/meta.json."""
import json, os, re, glob
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = ["| planted bug | caught by | needs | breaks |", "|---|---|---|---|"]
for p in sorted(glob.glob(root + "/seeded/*/meta.json")):
    m = json.load(open(p))
    by = m["property"] + (" (not caught)" if m.get("caught") is False else "")
    rows.append("| %s | %s | %s | %s |" % (os.path.basename(os.path.dirname(p)), by, m["needs"], m["what_it_breaks"]))
s = open(root + "/DESIGN.md").read()
t = "<!-- table -->\n" + "\n".join(rows) + "\n<!-- /table -->"
s = s.replace("SEEDED_TABLE", "\n\n<!-- table -->\n<!-- /table -->") if "SEEDED_TABLE" in s else s
s = re.sub(r"<!-- table -->\n.*?<!-- /table -->", lambda m: t, s, flags=re.S)
open(root + "/DESIGN.md", "w").write(s)
