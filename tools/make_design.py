"""Writes ../DESIGN.md from design.md and the planted bugs (their metadata)."""
import json
import os

V = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
rows = []
for name in os.listdir(os.path.join(V, "seeded")):
    path = os.path.join(V, "seeded", name, "meta.json")
    if os.path.exists(path):
        meta = json.load(open(path))
        rows.append((meta["property"], name, meta["what_it_breaks"], meta["needs"]))
table = "| check | bug | what it breaks | what it needs |\n|---|---|---|---|\n"
table += "\n".join(f"| {p} | {n} | {w} | {x} |" for p, n, w, x in sorted(rows))
text = open(os.path.join(V, "tools", "design.md")).read().replace("@@TABLE@@", table)
open(os.path.join(V, "DESIGN.md"), "w").write(text)
print(len(rows), "bugs")
