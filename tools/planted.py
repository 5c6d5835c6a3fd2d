#!/usr/bin/env python3
"""Refreshes the count of planted changes in DESIGN.md."""
import collections, json, os, re
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
c = collections.Counter(json.load(open(f"{root}/seeded/{d}/meta.json"))["property"] for d in os.listdir(f"{root}/seeded"))
line = f"{sum(c.values())} are kept: " + ", ".join(f"{k} {c[k]}" for k in sorted(c)) + "."
p = f"{root}/DESIGN.md"
s = open(p).read()
open(p, "w").write(re.sub(r"^\d+ are kept: .*$", line, s, flags=re.M))
