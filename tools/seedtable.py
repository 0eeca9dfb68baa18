#!/usr/bin/env python3
"""seedtable.py LOG...: rewrites the table of planted bugs in DESIGN.md from lines
"ID PROPERTY rc=N SECONDS VIOLATION property=P replay=PATH" """
import glob, json, os, re, sys
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
got = {}
for f in sys.argv[1:]:
    for l in open(f):
        m = re.match(r"(\S+) (C\d\d) rc=(\d+) \d+s ?(?:VIOLATION \S+ replay=\S*/(C\d\d\.\w+)-)?", l)
        if m:
            got[m[1]] = m[4] if m[3] == "1" and m[4] else "missed"
rows = ["| planted bug | what it needs | caught by |", "|---|---|---|"]
for d in sorted(glob.glob(os.path.join(here, "seeded", "*", "meta.json"))):
    i = os.path.basename(os.path.dirname(d))
    rows.append("| %s | %s | %s |" % (i, json.load(open(d))["needs"].replace("|", "/"), got.get(i, "?")))
p = os.path.join(here, "DESIGN.md")
s = open(p).read()
open(p, "w").write(s[:s.index("<!-- seeds -->")] + "<!-- seeds -->\n" + "\n".join(rows) + "\n")
