"""Make and validate planted bugs.   python3 tools/plant.py [ID ...]

Definitions are in tools/plants.py.  For each bug: writes seeded/<id>/{patch.diff,demo.sh,demo.py,
meta.json}, then, in a scratch copy of /repo, runs the demonstration on the clean and the changed
tree, the test suite on the changed tree, and the check of the bug's property (and any extra ones).
Results go to /tmp/plant/<id>.txt; nothing is kept in /repo.
"""
import json
import os
import shutil
import subprocess
import sys
import time
from pathlib import Path

ROOT = Path(__file__).resolve().parent.parent
sys.path.insert(0, str(ROOT / "tools"))
from plants import PLANTS  # noqa: E402

PY = "/opt/venv/bin/python"
MODULES = json.loads((ROOT / "MANIFEST.json").read_text())["checks"]
MODULE = {c["property"]: c["quick_cmd"].split()[-2] for c in MODULES}
OUT = Path("/tmp/plant")
SEEDED = ROOT / "seeded"


def sh(cmd, **kw):
    return subprocess.run(cmd, shell=True, capture_output=True, text=True, **kw)


def make(plant, repo):
    sh("git checkout -q -- . && git clean -fdq", cwd=repo)
    for file, old, new in plant["edits"]:
        p = repo / "graphblas_algorithms" / file
        s = p.read_text()
        assert s.count(old) == 1, (plant["id"], file, s.count(old))
        p.write_text(s.replace(old, new))
    d = SEEDED / plant["id"]
    d.mkdir(parents=True, exist_ok=True)
    (d / "patch.diff").write_text(sh("git diff", cwd=repo).stdout)
    (d / "demo.py").write_text(plant["demo"].lstrip("\n"))
    (d / "demo.sh").write_text(
        '#!/bin/bash\n# Run in the top folder of the repository; exit 0 when the behaviour is right.\n'
        'here="$(cd "$(dirname "$0")" && pwd)"\n'
        'PYTHONDONTWRITEBYTECODE=1 PYTHONPATH="$PWD" exec /opt/venv/bin/python "$here/demo.py"\n')
    os.chmod(d / "demo.sh", 0o755)
    (d / "meta.json").write_text(json.dumps({k: plant[k] for k in ("property", "needs", "what_it_breaks")}, indent=1) + "\n")
    # Lines removed must be lines of the original repository.
    base = sh("git log --format=%h --reverse", cwd="/repo").stdout.split()[0]
    for line in (d / "patch.diff").read_text().splitlines():
        if line.startswith("-") and not line.startswith("---"):
            text = line[1:]
            hits = sh(f"git grep -F -e '{text}' {base} -- graphblas_algorithms | head -1", cwd="/repo").stdout if "'" not in text else "?"
            if text.strip() and not hits:
                print(f"   NOTE {plant['id']}: not an original line: {text}")
    return d


def tests(repo):
    s = Path("/opt/vp/test.sh").read_text().replace("/repo", str(repo)).replace("REPORTS=/opt/vp/reports", f"REPORTS={repo}.reports")
    t = Path(f"{repo}.test.sh")
    t.write_text(s)
    env = dict(os.environ, PYTHONPATH=str(repo))
    tail = sh(f"bash {t} {repo}.json", env=env)
    return tail.stdout + tail.stderr, Path(f"{repo}.json")


def baseline():
    d = json.loads(Path("/opt/vp/BASELINE.json").read_text())
    return d


def run(plant, skip_tests=False):
    repo = Path(f"/tmp/plant/{plant['id']}.repo")
    OUT.mkdir(exist_ok=True)
    if repo.exists():
        shutil.rmtree(repo)
    shutil.copytree("/repo", repo, symlinks=True)
    res = {"id": plant["id"]}
    try:
        d = make(plant, repo)
        sh("git checkout -q -- .", cwd=repo)
        res["demo_clean"] = sh(f"bash {d}/demo.sh", cwd=repo).returncode
        sh(f"git apply {d}/patch.diff", cwd=repo)
        r = sh(f"bash {d}/demo.sh", cwd=repo)
        res["demo_patched"] = r.returncode
        res["demo_out"] = (r.stdout + r.stderr)[-300:]
        if res["demo_clean"] == 0 and res["demo_patched"] != 0:
            if not skip_tests:
                out, js = tests(repo)
                res["tests"] = out.strip().splitlines()[-1:]
                (OUT / f"{plant['id']}.tests.txt").write_text(out)
            for pid in [plant["property"], *plant.get("also", [])]:
                if pid not in MODULE:
                    continue
                t0 = time.time()
                r = sh(f"{PY} -B -m mc.run {MODULE[pid]} quick", cwd=ROOT, env=dict(os.environ, PYTHONPATH=str(repo), PYTHONDONTWRITEBYTECODE="1", VERIF_SEED="1"))
                line = [x for x in r.stdout.splitlines() if x.startswith("  ")]
                res[f"check {pid}"] = (r.returncode, round(time.time() - t0), (line or r.stderr.strip().splitlines()[-1:] or [""])[0][:400])
    finally:
        for p in (repo, Path(f"{repo}.reports")):
            if p.exists():
                shutil.rmtree(p)
    (OUT / f"{plant['id']}.txt").write_text(json.dumps(res, indent=1))
    print(json.dumps(res, indent=1), flush=True)


if __name__ == "__main__":
    args = sys.argv[1:]
    skip = "-s" in args
    args = [a for a in args if a != "-s"]
    for plant in PLANTS:
        if not args or plant["id"] in args:
            run(plant, skip)
