#!/usr/bin/env python3
"""Prints the table of planted bugs for DESIGN.md from seeded/*/meta.json and plant.py's output (development aid)."""
import json
import os
import re
import sys

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
got = {}
for f in sys.argv[1:]:
    for l in open(f):
        m = re.match(r"(c\d\d-\S+) .*check rc=(\d+) (\d+)s (CAUGHT|MISSED)", l)
        if m:
            got[m.group(1)] = m.group(4)
print("| planted bug | needs | reported by |\n|-|-|-|")
for n in sorted(os.listdir(ROOT + "/seeded")):
    m = json.load(open("%s/seeded/%s/meta.json" % (ROOT, n)))
    r = {"CAUGHT": m["property"], "MISSED": "**missed**"}.get(got.get(n), "?")
    print("| %s | %s | %s |" % (n, m["needs"], r))
