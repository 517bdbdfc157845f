#!/usr/bin/env python3
"""Rewrites the table at the end of DESIGN.md from seeded/*/meta.json."""
import json, pathlib
root = pathlib.Path(__file__).resolve().parent.parent
rows = []
for m in sorted(root.glob("seeded/*/meta.json")):
    d = json.loads(m.read_text())
    rows.append((d["property"], m.parent.name, d["needs"], d["what_it_breaks"]))
rows.sort()
missed = json.loads((root / "tools/bugs/missed.json").read_text())
out = ["## Planted bugs", "",
       "Made by `tools/plant.py` from `tools/bugs/*.py`; each compiled, passed the repository's tests, and had its",
       "demonstration confirmed in a scratch copy. The check of the property in the first column was run on each",
       "(`tools/plant.py try`). \"first missed\" says what had to be strengthened.", "",
       "| check | bug | needs | breaks | caught |", "|---|---|---|---|---|"]
for p, n, needs, breaks in rows:
    esc = lambda s: s.replace("|", "\\|").replace("\n", " ")
    out.append(f"| {p} | {n} | {esc(needs)} | {esc(breaks)} | {esc(missed.get(n, 'yes'))} |")
d = root / "DESIGN.md"
t = d.read_text()
d.write_text(t[:t.index("## Planted bugs")] + "\n".join(out) + "\n")
