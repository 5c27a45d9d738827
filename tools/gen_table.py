#!/usr/bin/env python3
"""Rewrites the table of planted bugs at the end of DESIGN.md (documentation only)."""
import glob, json, os
H = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
s = open(H + "/DESIGN.md").read()
k = s.index("## Planted bugs\n")
rest = s[k:]
tail = rest[rest.index("\n## ", 5):] if "\n## " in rest[5:] else ""
out = ["## Planted bugs\n", "Each builds, passes the 322 tests, and is caught by the check of its property with the quick tier, seed 1,",
       "unless the last column says otherwise.\n", "| planted bug | needs | breaks | caught |", "|---|---|---|---|"]
for d in sorted(glob.glob(H + "/seeded/*/meta.json")):
    m = json.load(open(d))
    out.append("| %s | %s | %s | %s |" % (os.path.basename(os.path.dirname(d)), m["needs"], m["what_it_breaks"], m.get("caught", m["property"])))
open(H + "/DESIGN.md", "w").write(s[:k] + "\n".join(out) + "\n" + tail)
