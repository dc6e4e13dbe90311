#!/usr/bin/env python3
"""Write /verif/MANIFEST.json for the properties whose check exists."""
import json
import pathlib

V = pathlib.Path(__file__).resolve().parent.parent
props = [json.loads(x) for x in (V / "properties.jsonl").read_text().splitlines()]
NOTES = json.loads((V / "tools" / "level_notes.json").read_text())
checks, na = [], []
for p in props:
    i = p["id"]
    if (V / "harness" / "checks" / f"{i.lower()}.py").exists():
        checks.append({
            "property": i,
            "quick_cmd": f"python3 harness/run_check.py {i} --tier quick",
            "thorough_cmd": f"python3 harness/run_check.py {i} --tier thorough",
            "evidence_file": f"evidence/{i}.json",
            "technique": NOTES[i][0],
            "level": "exploration",
            "level_note": NOTES[i][1],
        })
    else:
        na.append({"property": i, "reason": "check under construction"})
m = {
    "version": 1,
    "setup_cmd": "python3 tools/setup.py",
    "checks": checks,
    "not_applicable": na,
    "notes": "No hooks in /repo: every check observes the public behaviour. Checks import sleplet from /repo/src "
             "(editable install) with the interpreter /opt/venv/bin/python and keep all files in a scratch directory.",
}
(V / "MANIFEST.json").write_text(json.dumps(m, indent=1) + "\n")
print(len(checks), "checks,", len(na), "not claimed")
