#!/usr/bin/env python3
"""Rewrites the table of planted bugs at the end of DESIGN.md from seeded/*/meta.json and tools/caught.txt
(lines: "bug check sub-check"), which is kept by hand."""
import json, os, glob
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
caught = {}
for l in open(os.path.join(here, "tools/caught.txt")):
    p = l.split(None, 2)
    if len(p) == 3: caught.setdefault(p[0], []).append("%s (%s)" % (p[1], p[2].strip()))
rows = ["| change | property | needs | caught by |", "|---|---|---|---|"]
for f in sorted(glob.glob(os.path.join(here, "seeded/*/meta.json"))):
    b = os.path.basename(os.path.dirname(f)); m = json.load(open(f))
    rows.append("| %s | %s | %s | %s |" % (b, m["property"], m["needs"].replace("|", "/"), ", ".join(caught.get(b, ["not caught"]))))
p = os.path.join(here, "DESIGN.md"); s = open(p).read()
mark = "<!-- matrix -->\n"
s = s.split(mark)[0] + mark + "\n".join(rows) + "\n"
open(p, "w").write(s)
