"""Plant bugs from a spec file:  python3 tools/plant.py SPEC.py [id ...]

SPEC.py defines BUGS = [dict(id, property, edits=[(file, old, new)], demo=python text, needs, what)].
Each is applied to a scratch copy of /repo, has to pass the tests and to make its demo fail; then it is written
to /verif/seeded/<id>/."""
import json
import os
import runpy
import shutil
import subprocess
import sys
import tempfile

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
DEMO = '#!/bin/bash\nexec env PYTHONPATH=src PYTHONDONTWRITEBYTECODE=1 /opt/venv/bin/python -B "$(dirname "$0")/demo.py"\n'


def run(cmd, cwd, **kw):
    return subprocess.run(cmd, cwd=cwd, capture_output=True, text=True, errors="replace", **kw)


def mine(work):
    """lines of the sources that fix commits added"""
    base = run(["git", "rev-list", "--max-parents=0", "HEAD"], work).stdout.split()[0]
    return {x[1:].strip() for x in run(["git", "diff", base, "HEAD", "--", "src"], work).stdout.splitlines() if x.startswith("+") and not x.startswith("+++")}


def plant(b):
    work = tempfile.mkdtemp(prefix="plant-")
    repo = os.path.join(work, "repo")
    try:
        shutil.copytree("/repo", repo, symlinks=True)
        for f, old, new in b["edits"]:
            p = os.path.join(repo, f if f.startswith("src/") else "src/fcsql/" + f)
            s = open(p, encoding="utf-8").read()
            if s.count(old) != 1:
                return f"{f}: {s.count(old)} occurrences of {old[:60]!r}"
            open(p, "w", encoding="utf-8").write(s.replace(old, new))
        patch = run(["git", "diff"], repo).stdout
        gone = [x[1:].strip() for x in patch.splitlines() if x.startswith("-") and not x.startswith("---")]
        own = mine(repo)
        note = " (touches own lines)" if any(g and g in own for g in gone) else ""
        env = dict(os.environ, PYTHONPATH=os.path.join(repo, "src"), PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0", LC_ALL="C.UTF-8")
        t = run(["/opt/venv/bin/python", "-m", "pytest", "-q", "-x", "-p", "no:cacheprovider", "tests"], repo, env=env)
        if t.returncode:
            return "tests fail: " + " / ".join(x for x in t.stdout.splitlines() if x.startswith("FAILED") or "Error" in x)[:300]
        d = os.path.join(work, "demo")
        os.mkdir(d)
        open(os.path.join(d, "demo.py"), "w").write(b["demo"].lstrip("\n"))
        open(os.path.join(d, "demo.sh"), "w").write(b.get("demo_sh", DEMO))
        good = run(["bash", os.path.join(d, "demo.sh")], "/repo", timeout=300)
        bad = run(["bash", os.path.join(d, "demo.sh")], repo, timeout=300)
        if good.returncode:
            return "demo fails on the unchanged tree: " + (good.stdout + good.stderr)[-400:]
        if not bad.returncode:
            return "demo passes with the bug"
        out = os.path.join(HERE, "seeded", b["id"])
        shutil.rmtree(out, ignore_errors=True)
        os.makedirs(out)
        for x in os.listdir(d):
            shutil.copy(os.path.join(d, x), out)
        open(os.path.join(out, "patch.diff"), "w").write(patch)
        json.dump({"property": b["property"], "needs": b["needs"], "what_it_breaks": b["what"]}, open(os.path.join(out, "meta.json"), "w"), indent=1)
        return "ok" + note
    finally:
        shutil.rmtree(work, ignore_errors=True)


if __name__ == "__main__":
    for b in runpy.run_path(sys.argv[1])["BUGS"]:
        if len(sys.argv) < 3 or b["id"] in sys.argv[2:]:
            print(b["id"], plant(b), flush=True)
