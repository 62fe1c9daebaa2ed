#!/usr/bin/env python3
"""Rewrite the section on planted bugs of DESIGN.md from seeded/*/meta.json."""
import glob, json, os, re
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = []
for m in sorted(glob.glob(root + "/seeded/*/meta.json")):
    d = json.load(open(m))
    cell = lambda s: re.sub(r"\s+", " ", s).replace("|", "/").strip()
    rows.append("| %s | %s | %s | %s |" % (os.path.basename(os.path.dirname(m)), d["property"], cell(d["needs"]), cell(d["what_it_breaks"])))
p = root + "/DESIGN.md"
s = open(p).read()
b, e = "<!-- seeds -->\n", "<!-- /seeds -->\n"
i, j = s.index(b) + len(b), s.index(e)
s = s[:i] + "| id | caught by | needs | breaks |\n|---|---|---|---|\n" + "\n".join(rows) + "\n" + s[j:]
open(p, "w").write(s)
