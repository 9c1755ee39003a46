#!/usr/bin/env python3
"""Rewrites the table of planted bugs in DESIGN.md (between the markers) from seeded/*/meta.json.
A meta.json may carry "first": how the check of its property did when the bug was first tried."""
import json, pathlib, re
root = pathlib.Path(__file__).resolve().parent.parent
rows = ["| bug | what it breaks | needs | caught by | when first tried |", "|---|---|---|---|---|"]
for m in sorted(root.glob("seeded/*/meta.json")):
    d = json.loads(m.read_text())
    rows.append(f"| {m.parent.name} | {d['what_it_breaks']} | {d['needs']} | {', '.join(d.get('caught_by', [d['property']]))} | {d.get('first', 'caught')} |")
p = root / "DESIGN.md"
s = p.read_text()
s = re.sub(r"<!-- seeds -->.*?<!-- /seeds -->", lambda _: "<!-- seeds -->\n" + "\n".join(rows) + "\n<!-- /seeds -->", s, flags=re.S)
p.write_text(s)
