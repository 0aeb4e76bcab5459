"""Rewrite the table of planted bugs in DESIGN.md from seeded/*/meta.json."""
import json
import os
import re

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = ["| id | checked by | needs | breaks |", "|---|---|---|---|"]
for i in sorted(os.listdir(os.path.join(ROOT, "seeded"))):
    d = json.load(open(os.path.join(ROOT, "seeded", i, "meta.json")))
    rows.append("| %s | %s | %s | %s |" % (i, d["property"], d["needs"], d["what_it_breaks"]))
path = os.path.join(ROOT, "DESIGN.md")
s = open(path).read()
s = re.sub(r"(?s)<!--seeds-->.*<!--/seeds-->", lambda m: "<!--seeds-->\n" + "\n".join(rows) + "\n<!--/seeds-->", s)
open(path, "w").write(s)
