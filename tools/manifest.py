#!/usr/bin/env python3
"""Regenerates MANIFEST.json: a check per property that has a module."""
import json
from pathlib import Path

V = Path(__file__).resolve().parent.parent
props = [json.loads(l) for l in (V / "properties.jsonl").read_text().splitlines()]
notes = json.loads((V / "tools/notes.json").read_text())
checks, na = [], []
for p in props:
    i = p["id"]
    if (V / f"harness/checks/{i.lower()}.py").exists() and i in notes:
        t, l = notes[i]
        checks.append(dict(
            property=i, quick_cmd=f"bash bin/check {i} quick",
            thorough_cmd=f"bash bin/check {i} thorough",
            evidence_file=f"evidence/{i}.json", technique=t,
            level="model_checking", level_note=l))
    else:
        na.append(dict(property=i, reason="check under construction"))
m = dict(version=1, setup_cmd="bash bin/setup", checks=checks, not_applicable=na)
(V / "MANIFEST.json").write_text(json.dumps(m, indent=1) + "\n")
