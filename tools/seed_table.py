#!/usr/bin/env python3
"""Writes the table of planted bugs into DESIGN.md (between the markers)."""
import json, pathlib, re
root = pathlib.Path(__file__).resolve().parent.parent
by = {}
for m in sorted((root / "seeded").glob("*/meta.json")):
    by.setdefault(json.loads(m.read_text())["property"], []).append(m.parent.name)
rows = ["<!-- seeds -->", "| check | planted bugs it catches (quick) |", "|---|---|"]
rows += [f"| {p} | {', '.join(ids)} |" for p, ids in sorted(by.items())]
rows += ["<!-- /seeds -->"]
d = root / "DESIGN.md"
t = d.read_text()
new = "\n".join(rows)
if "@@TABLE@@" in t:
    t = t.replace("@@TABLE@@", new)
else:
    t = re.sub(r"<!-- seeds -->.*<!-- /seeds -->", lambda m: new, t, flags=re.S)
d.write_text(t)
