#!/usr/bin/env python3
"""Write MANIFEST.json from stages.py and notes.py"""
import json
from pathlib import Path

from notes import NOT_APPLICABLE, NOTES, TECHNIQUE
from stages import CHECKS

here = Path(__file__).resolve().parent
props = [json.loads(l)["id"] for l in (here / "properties.jsonl").read_text().splitlines()]
checks = [{"property": p, "quick_cmd": f"VERIF_TIER=quick python3 check.py {p}",
           "thorough_cmd": f"VERIF_TIER=thorough python3 check.py {p}",
           "evidence_file": f"evidence/{p}.json", "technique": TECHNIQUE[p], "level": CHECKS[p]["level"],
           "level_note": NOTES[p]} for p in props if p in CHECKS]
manifest = {"version": 1, "setup_cmd": "python3 check.py build", "checks": checks,
            "not_applicable": [{"property": p, "reason": NOT_APPLICABLE.get(p, "no check has been built for it yet")}
                               for p in props if p not in CHECKS],
            "notes": "TLA+ specifications in spec/, executed by TLC; drivers in harness/; see DESIGN.md"}
(here / "MANIFEST.json").write_text(json.dumps(manifest, indent=1) + "\n")
