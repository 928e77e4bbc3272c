#!/usr/bin/env python3
"""Rewrites the table of planted bugs at the end of DESIGN.md from seeded/*/meta.json (marks * are kept)."""
import json, glob, os, re, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
p = os.path.join(HERE, "DESIGN.md"); s = open(p).read()
star = set(re.findall(r"^\| C\d\d \| ([\w-]+) \* \|", s, re.M)) | set(sys.argv[1:])
head = s[:s.index("| caught by | bug | needs |")]
rows = []
for f in glob.glob(os.path.join(HERE, "seeded/*/meta.json")):
    m = json.load(open(f)); i = os.path.basename(os.path.dirname(f))
    rows.append((m["property"], i, m["needs"]))
open(p, "w").write(head + "| caught by | bug | needs |\n|---|---|---|\n" + "".join("| %s | %s%s | %s |\n" % (a, b, " *" if b in star else "", c) for a, b, c in sorted(rows)))
