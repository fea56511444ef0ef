#!/usr/bin/env python3
"""Fill the table of planted bugs in DESIGN.md (between the markers) from seeded/*/meta.json."""
import glob, json, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = ["| bug | caught by | needs |", "|---|---|---|"]
for m in sorted(glob.glob(V + "/seeded/*/meta.json")):
    j = json.load(open(m)); n = os.path.basename(os.path.dirname(m))
    rows.append("| %s | %s%s | %s |" % (n, j.get("caught_by", j["property"]), "" if j.get("caught", True) else " (missed)", j["needs"]))
d = open(V + "/DESIGN.md").read()
d = re.sub(r"<!-- seeds -->.*?<!-- /seeds -->", lambda _: "<!-- seeds -->\n" + "\n".join(rows) + "\n<!-- /seeds -->", d, flags=re.S)
open(V + "/DESIGN.md", "w").write(d)
