#!/usr/bin/env python3
"""Generate properties.jsonl and MANIFEST.json (single source: props.py)"""
import json
import sys
from pathlib import Path

here = Path(__file__).resolve().parent
root = here.parent
sys.path.insert(0, str(here))
from props import NA, PROPS

lines = []
checks = []
for p in PROPS:
    p = dict(p)
    technique, level, note = p.pop("technique"), p.pop("level"), p.pop("note")
    assert len(p["title"]) <= 80, p["title"]
    assert p["statement"].count(". ") <= 2, p["id"]
    lines.append(json.dumps(p))
    assert (root / "mc/checks" / f"{p['id']}.py").exists(), p["id"]
    checks.append(
        dict(
            property=p["id"],
            quick_cmd=f"./check.sh {p['id']} quick",
            thorough_cmd=f"./check.sh {p['id']} thorough",
            technique=technique,
            level=level,
            level_note=note,
            evidence_file=f"evidence/{p['id']}.json",
        )
    )
(root / "properties.jsonl").write_text("\n".join(lines) + "\n")
manifest = dict(
    version=1,
    setup_cmd="./setup.sh",
    checks=checks,
    not_applicable=NA,
)
(root / "MANIFEST.json").write_text(json.dumps(manifest, indent=1) + "\n")
print(len(PROPS), "properties")
