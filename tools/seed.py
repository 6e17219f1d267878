"""Author's tool: turns descriptions of planted bugs into /verif/seeded/<id>/ and tries them.

  seed.py FILE.py [id...]     FILE.py defines SEEDS, a list of dictionaries with the fields
     id, property, needs, breaks, edits = [(file, old, new), ...], demo (Python source)
  seed.py run [id...]         tries the checks against the planted bugs there are

Each change is made in a scratch copy of /repo only; the demonstration has to pass
without it and fail with it, and then the property's check is run against the copy.
"""
import importlib.util
import json
import os
import shutil
import subprocess
import sys
import tempfile
from concurrent.futures import ThreadPoolExecutor
from pathlib import Path

VERIF = Path(__file__).resolve().parent.parent
PY = "/opt/venv/bin/python"
DEMO = """#!/bin/bash
cd /repo
MPLBACKEND=Agg PYTHONDONTWRITEBYTECODE=1 PYTHONPATH="$PWD" exec /opt/venv/bin/python -W ignore "$(dirname "$(readlink -f "$0")")/demo.py"
"""


def copy_repo():
    d = Path(tempfile.mkdtemp(prefix="seedrepo-"))
    subprocess.run(["cp", "-a", "/repo/.", str(d)], check=True)
    return d


def demo(d, dst):
    env = dict(os.environ, MPLBACKEND="Agg", PYTHONDONTWRITEBYTECODE="1", PYTHONPATH=str(d), OPENBLAS_NUM_THREADS="1")
    if not (dst / "demo.py").exists():
        s = (dst / "demo.sh").read_text().replace("/repo", str(d))
        f = d / "demo-tmp.sh"
        f.write_text(s)
        for x in dst.iterdir():
            if x.name not in ("demo.sh", "patch.diff", "meta.json"):
                shutil.copy(x, d)
        return subprocess.run(["bash", str(f)], cwd=d, env=env, capture_output=True, text=True)
    return subprocess.run([PY, "-W", "ignore", str(dst / "demo.py")], cwd=d, env=env, capture_output=True, text=True, timeout=280)


def run_check(prop, d):
    env = dict(os.environ, VERIF_REPO=str(d), VERIF_SEED="1", VERIF_EVIDENCE=str(d / "ev"))
    p = subprocess.run([PY, "checks/run.py", prop], cwd=VERIF, env=env, capture_output=True, text=True)
    return p.returncode, p.stdout


def write(s):
    d = copy_repo()
    try:
        for f, old, new in s["edits"]:
            t = (d / f).read_text()
            assert t.count(old) == 1, (s["id"], f, "old text occurs", t.count(old))
            (d / f).write_text(t.replace(old, new))
        diff = subprocess.run(["git", "-C", str(d), "diff", "--no-color"], capture_output=True, text=True).stdout
        dst = VERIF / "seeded" / s["id"]
        dst.mkdir(parents=True, exist_ok=True)
        (dst / "patch.diff").write_text(diff)
        if s["demo"].startswith("#!/bin/bash"):
            (dst / "demo.sh").write_text(s["demo"])
        else:
            (dst / "demo.sh").write_text(DEMO)
            (dst / "demo.py").write_text(s["demo"])
        for name, text in s.get("files", {}).items():
            (dst / name).write_text(text)
        (dst / "meta.json").write_text(json.dumps({"property": s["property"], "needs": s["needs"], "what_it_breaks": s["breaks"]}, indent=1) + "\n")
    finally:
        shutil.rmtree(d)


def try_(i):
    dst = VERIF / "seeded" / i
    prop = json.loads((dst / "meta.json").read_text())["property"]
    d = copy_repo()
    try:
        a = demo(d, dst)
        r = subprocess.run(["git", "-C", str(d), "apply", str(dst / "patch.diff")], capture_output=True, text=True)
        if r.returncode:
            return i, prop, "PATCH DOES NOT APPLY " + r.stderr
        b = demo(d, dst)
        bad = ""
        if a.returncode != 0:
            bad += " DEMO FAILS WITHOUT: " + (a.stdout + a.stderr)[-400:]
        if b.returncode == 0:
            bad += " DEMO PASSES WITH"
        if not (VERIF / "checks" / f"{prop.lower()}.py").exists():
            return i, prop, "no check yet" + bad
        code, out = run_check(prop, d)
        return i, prop, ("caught" if code == 1 else f"MISSED (exit {code})") + bad + "\n" + "\n".join(l[:260] for l in out.splitlines()[:3])
    finally:
        shutil.rmtree(d)


if sys.argv[1] != "run":
    spec = importlib.util.spec_from_file_location("seeds", sys.argv[1])
    m = importlib.util.module_from_spec(spec)
    spec.loader.exec_module(m)
    todo = [s for s in m.SEEDS if not sys.argv[2:] or s["id"] in sys.argv[2:]]
    for s in todo:
        write(s)
    ids = [s["id"] for s in todo]
else:
    ids = sys.argv[2:] or sorted(x.name for x in (VERIF / "seeded").iterdir())
with ThreadPoolExecutor(3) as ex:
    for i, prop, what in ex.map(try_, ids):
        print(i, prop, what, flush=True)
