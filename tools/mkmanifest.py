#!/usr/bin/env python3
"""Regenerates /verif/MANIFEST.json from the checks that exist."""
import ast
import json
import pathlib
import re

HERE = pathlib.Path(__file__).resolve().parent.parent
props = [json.loads(x) for x in (HERE / "properties.jsonl").read_text().splitlines() if x.strip()]
checks, missing = [], []
for p in props:
    src = HERE / "vf" / "checks" / f"{p['id'].lower()}.py"
    if not src.exists():
        missing.append({"property": p["id"], "reason": "check not built yet"})
        continue
    consts = {}
    for node in ast.parse(src.read_text()).body:
        if isinstance(node, ast.Assign) and isinstance(node.targets[0], ast.Name):
            try:
                consts[node.targets[0].id] = ast.literal_eval(node.value)
            except ValueError:
                pass
    checks.append({
        "property": p["id"],
        "quick_cmd": f"/opt/venv/bin/python run.py {p['id']}",
        "thorough_cmd": f"VERIF_TIER=thorough /opt/venv/bin/python run.py {p['id']}",
        "evidence_file": f"evidence/{p['id']}.json",
        "technique": consts["TECHNIQUE"],
        "level": consts["LEVEL"],
        "level_note": consts["LEVEL_NOTE"],
    })
out = {
    "version": 1,
    "setup_cmd": "/opt/venv/bin/python -B tools/setup_check.py",
    "checks": checks,
    "not_applicable": missing,
}
(HERE / "MANIFEST.json").write_text(json.dumps(out, indent=1) + "\n")
print(len(checks), "checks;", "missing:", ", ".join(m["property"] for m in missing) or "none")
_ = re
