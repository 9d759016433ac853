#!/usr/bin/env python3
"""Regenerates /verif/MANIFEST.json: one row per property that has a monitor."""
import json, pathlib, subprocess
root = pathlib.Path(__file__).resolve().parent.parent
props = [json.loads(l) for l in open(root / "properties.jsonl")]
exec(open(root / "tools/claims.py").read())   # CLAIMED, NOT_APPLICABLE
src = (root / "harness/checks/src/main.rs").read_text()
m = dict(version=1, setup_cmd="bin/check build",
    hooks=dict(guard="cfg(posy_verif)",
        enable="harness/posy is a library crate whose root is /repo/src/main.rs; its build script sets --cfg posy_verif for that crate only",
        source_commits=["aa347a5", "e2c94de"]),
    checks=[], not_applicable=[])
for p in props:
    i = p["id"]
    if i in CLAIMED and f'"{i}"' in src:
        level, technique, note = CLAIMED[i]
        m["checks"].append(dict(property=i, quick_cmd=f"bin/check {i} quick",
            thorough_cmd=f"bin/check {i} thorough", evidence_file=f"evidence/{i}.json",
            technique=technique, level=level, level_note=note))
    else:
        m["not_applicable"].append(dict(property=i, reason=NOT_APPLICABLE.get(i,
            "monitor not built yet; nothing is claimed for it")))
(root / "MANIFEST.json").write_text(json.dumps(m, indent=1) + "\n")
