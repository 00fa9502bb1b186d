"""Regenerates MANIFEST.json from the table below (kept in step with properties.jsonl)."""
import json
import subprocess
from pathlib import Path

HERE = Path(__file__).resolve().parent
props = [json.loads(l) for l in (HERE / "properties.jsonl").read_text().splitlines() if l.strip()]
notes = json.loads((HERE / "manifest_notes.json").read_text())
checks, na = [], []
for p in props:
    n = notes[p["id"]]
    if "na" in n:
        na.append({"property": p["id"], "reason": n["na"]})
        continue
    checks.append({
        "property": p["id"],
        "quick_cmd": f"./check {p['id']} --tier quick",
        "thorough_cmd": f"./check {p['id']} --tier thorough",
        "technique": n["technique"],
        "level": n.get("level", "exploration"),
        "level_note": n["note"],
    })
m = {"version": 1, "setup_cmd": "./setup.sh",
     "hooks": notes.get("_hooks", {"guard": "none", "enable": "No hooks in /repo: seams are compiled in (-include, --wrap) or patched in from /verif.",
                                   "source_commits": []}),
     "checks": checks, "not_applicable": na}
(HERE / "MANIFEST.json").write_text(json.dumps(m, indent=1) + "\n")
print(len(checks), "checks,", len(na), "not applicable")
