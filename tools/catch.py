"""Writes tools/catch.md (appended to DESIGN.md): which check catches which planted change."""
import json
from pathlib import Path

root = Path(__file__).resolve().parent.parent
notes = json.loads((root / "tools/catch_notes.json").read_text())
out = ["## Planted bugs and which check catches them", "", notes["intro"], "",
       "| planted bug | property | needs | caught by | missed when first planted; what was strengthened |",
       "|---|---|---|---|---|"]
for d in sorted((root / "seeded").iterdir()):
    m = json.loads((d / "meta.json").read_text())
    out.append(f"| {d.name} | {m['property']} | {m['needs']} | check {notes['other'].get(d.name, m['property'])} | {notes['missed'].get(d.name, '')} |")
out += [""] + [x + "\n" for x in notes["after"]]
(root / "tools/catch.md").write_text("\n".join(out).rstrip() + "\n")
