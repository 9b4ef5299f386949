#!/usr/bin/env python3
"""Rewrites the table of planted changes at the end of DESIGN.md from seeded/*/meta.json."""
import glob, json, os
here = os.path.dirname(os.path.dirname(os.path.realpath(__file__)))
p = here + "/DESIGN.md"
s = open(p).read()
head = "| change | caught by | needs |\n|---|---|---|\n"
rows = ""
for m in sorted(glob.glob(here + "/seeded/*/meta.json")):
    d = json.load(open(m))
    rows += "| %s | %s | %s |\n" % (os.path.basename(os.path.dirname(m)), d["property"], d["needs"].replace("|", "\\|").rstrip("."))
i = s.index(head) + len(head)
j = i
while j < len(s) and s[j] == "|":
    j = s.index("\n", j) + 1
open(p, "w").write(s[:i] + rows + s[j:])
