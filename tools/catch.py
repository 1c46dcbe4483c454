"""Which checks catch which planted bugs:  python3 tools/catch.py [-a] [-j N] [-d SEEDDIR] [id ...]

Runs the property's own quick check (-a: every check) against a scratch copy of /repo with the patch applied, from a
scratch copy of /verif, and prints one line per bug."""
import argparse
import json
import os
import shutil
import subprocess
import sys
import tempfile
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ALL = ["C%02d" % i for i in range(1, 100)]


def one(job):
    bug, pids, root, tier, extra = job
    work = tempfile.mkdtemp(prefix="catch-")
    os.chmod(work, 0o755)
    try:
        repo, vf = os.path.join(work, "repo"), os.path.join(work, "verif")
        shutil.copytree("/repo", repo, symlinks=True)
        shutil.copytree(HERE, vf, ignore=shutil.ignore_patterns(".git", "seeded", "evidence", "replays"))
        if root:
            p = os.path.join(root, bug, "patch.diff")
            subprocess.run(["git", "apply", p], cwd=repo, check=True)
        env = dict(os.environ, VF_REPO=repo, VERIF_SEED="1", VERIF_TIER=tier, **extra)
        out = []
        for pid in pids:
            try:
                r = subprocess.run([sys.executable, "-m", "vf.run", pid, "--tier", tier], cwd=vf, env=env, capture_output=True, text=True, errors="replace", timeout=900)
                hit = any(x.startswith(f"VIOLATION property={pid} ") for x in r.stdout.splitlines())
                why = next((x for x in r.stdout.splitlines() if x.startswith("VIOLATION") or "inconcl" in x.lower()), "")
                out.append((pid, r.returncode, hit, (r.stdout + r.stderr)[:1500]))
            except subprocess.TimeoutExpired:
                out.append((pid, 99, False, "timeout"))
        return bug, out
    finally:
        shutil.rmtree(work, ignore_errors=True)


if __name__ == "__main__":
    ap = argparse.ArgumentParser()
    ap.add_argument("-a", action="store_true")
    ap.add_argument("-j", type=int, default=4)
    ap.add_argument("-d", default=os.path.join(HERE, "seeded"))
    ap.add_argument("-t", default="quick")
    ap.add_argument("-v", action="store_true")
    ap.add_argument("ids", nargs="*")
    a = ap.parse_args()
    known = [json.loads(x)["id"] for x in open(os.path.join(HERE, "properties.jsonl"))]
    bugs = a.ids or sorted(os.listdir(a.d))
    jobs = [(b, known if a.a else [json.load(open(os.path.join(a.d, b, "meta.json")))["property"]], a.d, a.t, {}) for b in bugs]
    with ThreadPoolExecutor(a.j) as ex:
        for bug, out in ex.map(one, jobs):
            print(bug, "|", " ".join(p for p, rc, hit, _ in out if rc == 1 and hit) or "-", "| silent:", " ".join(p for p, rc, hit, _ in out if rc == 0), "| other:", " ".join(f"{p}={rc}" for p, rc, hit, _ in out if rc not in (0, 1) or (rc == 1 and not hit)), flush=True)
            if a.v:
                for p, rc, hit, t in out:
                    if rc != 0:
                        print("   ", p, rc, t.replace("\n", "\n      "))
