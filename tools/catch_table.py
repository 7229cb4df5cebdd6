"""Rewrites the table of planted changes at the end of DESIGN.md from seeded/*/meta.json."""
import glob
import json
import os

here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
p = os.path.join(here, "DESIGN.md")
s = open(p).read()
k = "|---|---|---|\n"
i = s.index(k, s.index("## Planted changes")) + len(k)
for m in sorted(glob.glob(os.path.join(here, "seeded", "*", "meta.json"))):
    d = json.load(open(m))
    s = s[:i] + "| %s | %s | %s |\n" % (os.path.basename(os.path.dirname(m)), d["property"], d["needs"].replace("\n", " ").replace("|", "/"))
    i = len(s)
open(p, "w").write(s)
