#!/usr/bin/env python3
"""Rewrites the table of planted bugs in DESIGN.md from seeded/*/meta.json."""
import glob, json, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = []
for m in sorted(glob.glob(V + "/seeded/*/meta.json")):
    j = json.load(open(m)); rows.append("* `%s` (%s): %s. Needs %s. %s" % (os.path.basename(os.path.dirname(m)), j["property"], j["what_it_breaks"], j["needs"], j.get("caught", "Caught by %s." % j["property"])))
t = open(V + "/DESIGN.md").read()
a = t.index("run against its check with `lib/plant.py`:\n") + len("run against its check with `lib/plant.py`:\n"); b = t.index("Mutation exploration (random")
open(V + "/DESIGN.md", "w").write(t[:a] + "\n" + "\n".join(rows) + "\n\n" + t[b:])
