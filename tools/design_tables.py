#!/usr/bin/env python3
"""Rewrites the table of planted bugs in DESIGN.md (between its two markers) from seeded/*/meta.json.

A bug whose first run was not caught carries "strengthened" in meta.json: what the check gained.
"""
import glob
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = []
for path in sorted(glob.glob(os.path.join(HERE, "seeded", "*", "meta.json"))):
    m = json.load(open(path))
    rows.append("| %s | %s | %s | %s |" % (
        os.path.basename(os.path.dirname(path)), m["property"], m["what_it_breaks"].replace("|", "/"), m.get("strengthened", "")))
text = "\n".join(["| bug | caught by | what it breaks | missed at first; what the check gained |", "|---|---|---|---|"] + rows)
doc = open(os.path.join(HERE, "DESIGN.md")).read()
head, rest = doc.split("<!-- bugs -->\n", 1)
_, tail = rest.split("<!-- /bugs -->", 1)
open(os.path.join(HERE, "DESIGN.md"), "w").write(head + "<!-- bugs -->\n" + text + "\n<!-- /bugs -->" + tail)
print(len(rows), "planted bugs")
