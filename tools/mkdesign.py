#!/usr/bin/env python3
"""Writes /verif/DESIGN.md: tools/design.md and the table of planted changes."""
import json, os
V = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
out = open(V + "/tools/design.md").read()
out += "\n## Planted changes\n\nEach is caught by the quick check of its property (`tools/runseeds.py` runs them all; with `-a` against every check).\n\n| change | property | what it breaks | needs |\n|---|---|---|---|\n"
ids = sorted(os.listdir(V + "/seeded"))
missed = set(open(V + "/tools/missed.txt").read().split()) if os.path.exists(V + "/tools/missed.txt") else set()
for i in ids:
    m = json.load(open("%s/seeded/%s/meta.json" % (V, i)))
    e = lambda s: s.replace("|", "\\|").replace("\n", " ")
    out += "| %s%s | %s | %s | %s |\n" % (i, " (**missed**)" if i in missed else "", m["property"], e(m["what_it_breaks"]), e(m["needs"]))
open(V + "/DESIGN.md", "w").write(out)
print(len(ids), "changes")
