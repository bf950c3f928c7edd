#!/usr/bin/env python3
"""Fill the table of planted bugs in DESIGN.md from seeded/*/meta.json."""
import glob, json, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = ["<!-- planted bugs -->", "| planted bug | what it breaks | needs | caught by |", "|---|---|---|---|"]
for f in sorted(glob.glob(V + "/seeded/*/meta.json")):
    m = json.load(open(f))
    rows.append("| %s | %s | %s | %s |" % (os.path.basename(os.path.dirname(f)), m["what_it_breaks"], m["needs"], m.get("caught_by", m["property"])))
rows.append("<!-- end -->")
p = V + "/DESIGN.md"
s = open(p).read()
t = "\n".join(rows)
s = s.replace("@@TABLE@@", t) if "@@TABLE@@" in s else re.sub(r"<!-- planted bugs -->.*?<!-- end -->", lambda m: t, s, flags=re.S)
open(p, "w").write(s)
