"""Writes MANIFEST.json for the checks that exist (run by hand)."""
import json
from pathlib import Path

V = Path(__file__).resolve().parent.parent
props = [json.loads(l) for l in open(V / "properties.jsonl")]
SPECS = json.loads((V / "tools" / "specs.json").read_text())
checks, na = [], []
for p in props:
    i = p["id"]
    if (V / "checks" / f"{i.lower()}.py").exists():
        sp = SPECS[i]
        cmd = f"/opt/venv/bin/python checks/run.py {i}"
        checks.append(dict(property=i, quick_cmd=cmd, thorough_cmd=cmd + " thorough", evidence_file=f"evidence/{i}.json",
                           technique=sp["technique"], level=sp.get("level", "model_checking"), level_note=sp["note"]))
    else:
        na.append(dict(property=i, reason="check not built yet"))
m = dict(version=1, setup_cmd="/opt/venv/bin/python tools/setup.py", checks=checks, not_applicable=na,
         notes="No hooks: every observation is made through the public interface of the code.")
(V / "MANIFEST.json").write_text(json.dumps(m, indent=1) + "\n")
print(len(checks), "checks,", len(na), "not yet")
