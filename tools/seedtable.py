#!/usr/bin/env python3
"""Rewrite DESIGN.md's table of planted changes from seeded/*/meta.json (development aid)."""
import collections, glob, json, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
t = collections.defaultdict(list)
for m in sorted(glob.glob(V + "/seeded/*/meta.json")):
    t[json.load(open(m))["property"]].append(os.path.basename(os.path.dirname(m)))
rows = "\n".join(f"| {p} | {', '.join(t[p])} |" for p in sorted(t))
p = V + "/DESIGN.md"
s = open(p).read()
s = re.sub(r"(\| property \| changes[^\n]*\n\|---\|---\|\n)(?:\|[^\n]*\n)*", lambda m: m[1] + rows + "\n", s)
s = re.sub(r"<!--n-->\d+", f"<!--n-->{sum(map(len, t.values()))}", s)
open(p, "w").write(s)
