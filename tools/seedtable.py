"""Rewrites the table of planted bugs in DESIGN.md from seeded/*/meta.json."""
import glob
import json
import os
import re

V = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
rows = ["| planted bug | what it needs to show | caught by |", "|---|---|---|"]
for m in sorted(glob.glob(V + "/seeded/*/meta.json")):
    d = json.load(open(m))
    rows.append("| `%s` | %s | %s |" % (os.path.basename(os.path.dirname(m)), " ".join(d["needs"].split()).replace("|", "/"),
                                      ", ".join([d["property"]] + d.get("also", []))))
p = V + "/DESIGN.md"
s = open(p).read()
t = "<!-- seeds -->\n" + "\n".join(rows) + "\n<!-- /seeds -->"
if "SEEDTABLE" in s:
    s = s.replace("SEEDTABLE", t)
else:
    s = re.sub(r"<!-- seeds -->.*?<!-- /seeds -->", lambda _: t, s, flags=re.S)
open(p, "w").write(s)
