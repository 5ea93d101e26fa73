#!/usr/bin/env python3
"""bugtable.py: rewrites the table of planted bugs in DESIGN.md from seeded/*/meta.json"""
import collections, glob, json, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
d = collections.defaultdict(list)
for m in sorted(glob.glob(V + "/seeded/*/meta.json"), key=lambda p: int(re.search(r"/b(\d+)-", p)[1])):
    d[json.load(open(m))["property"]].append(os.path.basename(os.path.dirname(m)))
rows = ["<!-- bugs -->", "| check | planted bugs |", "|---|---|"] + [f"| {p} | {', '.join(d[p])} |" for p in sorted(d)] + ["<!-- /bugs -->"]
p = V + "/DESIGN.md"
s = open(p).read().replace("@@TABLE@@", "<!-- bugs --><!-- /bugs -->")
open(p, "w").write(re.sub(r"<!-- bugs -->.*?<!-- /bugs -->", lambda _: "\n".join(rows), s, flags=re.S))
