#!/usr/bin/env python3
"""Rewrites the table of planted changes at the end of DESIGN.md."""
import json, os
base = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
by = {}
for d in sorted(os.listdir(base + "/seeded")):
    by.setdefault(json.load(open(f"{base}/seeded/{d}/meta.json"))["property"], []).append(d)
path = base + "/DESIGN.md"
s = open(path).read()
head = "| property | planted changes |\n|---|---|\n"
s = s[: s.index(head) + len(head)] + "".join(f"| {p} | {', '.join(v)} |\n" for p, v in sorted(by.items()))
open(path, "w").write(s)
