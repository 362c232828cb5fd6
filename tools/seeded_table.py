#!/usr/bin/env python3
"""Writes SEEDED.md: the planted bugs under seeded/, by property."""
import json, os
root = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
rows = []
for d in sorted(os.listdir(os.path.join(root, "seeded"))):
    p = os.path.join(root, "seeded", d, "meta.json")
    if os.path.exists(p):
        m = json.load(open(p))
        rows.append((m["property"], d, m.get("needs", ""), m.get("what_it_breaks", "")))
rows.sort()
cell = lambda t: " ".join(str(t).split()).replace("|", "\\|")
with open(os.path.join(root, "SEEDED.md"), "w") as f:
    f.write("# Planted bugs\n\nEach is caught by the quick check of the property it's listed under (run against a scratch copy with the patch applied).\n\n")
    f.write("| caught by | id | what it breaks | needs |\n|---|---|---|---|\n")
    for p, d, n, b in rows:
        f.write(f"| {p} | {d} | {cell(b)} | {cell(n)} |\n")
print(len(rows))
