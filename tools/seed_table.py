#!/usr/bin/env python3
"""Rewrites the table of planted bugs in DESIGN.md from seeded/*/meta.json (the quick check that caught each is its
property's check; seeds that other checks catch as well only list this one)."""
import json, pathlib, re
root = pathlib.Path(__file__).resolve().parent.parent
rows = ["| change | property, caught by | needs |", "|---|---|---|"]
for d in sorted((root / "seeded").iterdir()):
    m = json.loads((d / "meta.json").read_text())
    needs = re.sub(r"\s+", " ", m["needs"]).replace("|", "/")
    rows.append(f"| {d.name} | {m['property']} | {needs} |")
p = root / "DESIGN.md"
s = p.read_text()
a, b = "<!-- seeds -->\n", "<!-- /seeds -->"
i, j = s.index(a) + len(a), s.index(b)
p.write_text(s[:i] + "\n".join(rows) + "\n" + s[j:])
print(len(rows) - 2, "seeds")
