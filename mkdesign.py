#!/usr/bin/env python3
"""Fill the table of planted bugs in DESIGN.md from seeded/*/meta.json"""
import json, re
from pathlib import Path
here = Path(__file__).resolve().parent
rows = []
for d in sorted((here / "seeded").iterdir()):
    m = json.loads((d / "meta.json").read_text())
    rows.append(f"| `{d.name}` | {m['property']} | {m['property'] if m['property'] else ''} |")
p = here / "DESIGN.md"; s = p.read_text()
body = "\n".join(rows)
s = s.replace("@@TABLE@@", body) if "@@TABLE@@" in s else re.sub(r"(\| bug \| property \| caught by \|\n\|---\|---\|---\|\n)(\|.*\n)*", lambda k: k.group(1) + body + "\n", s)
p.write_text(s)
