"""Driver of one check:  python3 -m vf.run C01 [--tier quick|thorough] [--replay FILE]

exit 0: held on everything explored;  exit 1: VIOLATION line;  exit 2: inconclusive
(a worker died, or the monitors did not observe enough to say anything).
"""
import argparse
import importlib.util
import json
import os
import re
import shutil
import signal
import subprocess
import sys
import tempfile
import time

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = os.environ.get("VF_PYTHON", "/opt/venv/bin/python")


def known_findings(pid):
    out = {}
    path = os.path.join(HERE, "known-findings.txt")
    for line in open(path):
        m = re.match(r"known: property=(\S+) key=(\S+) (.*)", line)
        if m and m.group(1) == pid:
            out[m.group(2)] = m.group(3).strip()
    return out


def plan(pid):
    """static settings of a check module, read without importing the code under test"""
    spec = importlib.util.spec_from_file_location("plan", os.path.join(HERE, "vf", "plan.py"))
    m = importlib.util.module_from_spec(spec)
    spec.loader.exec_module(m)
    return m.PLAN[pid]


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("pid")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1")))
    ap.add_argument("--replay")
    ap.add_argument("--workers", type=int)
    ap.add_argument("--n", type=int)
    a = ap.parse_args()
    sys.stdout.reconfigure(errors="backslashreplace")
    pid, tier = a.pid, a.tier
    t0 = time.monotonic()
    p = plan(pid)
    known = known_findings(pid)
    workers = a.workers or p.get("workers", 8)
    n = a.n or p["n"] * (p.get("deep", 12) if tier == "thorough" else 1)
    wall = 700 if tier == "thorough" else 420
    scratch = tempfile.mkdtemp(prefix=f"vf-{pid}-")
    env = dict(os.environ)
    for k in ("PYTHONPATH", "PYTHONOPTIMIZE", "PYTHONWARNINGS", "PYTHONDEVMODE", "PYTHONUTF8"):
        env.pop(k, None)
    env.update(PYTHONPATH=HERE, PYTHONHASHSEED="0", PYTHONDONTWRITEBYTECODE="1", PYTHONPYCACHEPREFIX=os.path.join(scratch, "pyc"),
               LC_ALL="C.UTF-8", VF_SCRATCH=scratch)
    procs = []
    try:
        if a.replay:
            workers = 1
        for w in range(workers):
            spec = {"pid": pid, "tier": tier, "seed": a.seed, "worker": w, "workers": workers, "n": n, "wall": wall,
                    "known": sorted(known), "out": os.path.join(scratch, f"out{w}.json")}
            if a.replay:
                spec["replay"] = json.load(open(a.replay))["case_py"]
            sp = os.path.join(scratch, f"spec{w}.json")
            json.dump(spec, open(sp, "w"))
            err = open(os.path.join(scratch, f"err{w}"), "w+")
            procs.append((subprocess.Popen([PY, "-B", "-m", "vf.core", sp], env=env, cwd=HERE, stdout=err, stderr=err,
                                           stdin=subprocess.DEVNULL, start_new_session=True), spec["out"], err))
        limit = t0 + wall + 90
        res, broken = [], []
        for w, (pr, out, err) in enumerate(procs):
            try:
                rc = pr.wait(max(1, limit - time.monotonic()))
            except subprocess.TimeoutExpired:
                rc = "timeout"
            if os.path.exists(out):
                res.append(json.load(open(out)))
            else:
                err.seek(0)
                broken.append(f"worker {w} ended with {rc}: " + err.read()[-1500:])
    finally:
        for pr, _, _ in procs:
            try:
                os.killpg(pr.pid, signal.SIGKILL)
            except (ProcessLookupError, PermissionError):
                pass
            pr.wait()
        shutil.rmtree(scratch, ignore_errors=True)

    counts, keys, samples, vio, knowns, ev, trunc = {}, set(), [], [], {}, 0, False
    for r in res:
        for k, v in r["counts"].items():
            counts[k] = max(counts.get(k, 0), v) if k.startswith("max:") else counts.get(k, 0) + v
        keys.update(r["keys"])
        samples += r["samples"]
        vio += r["violations"]
        knowns.update(r["knowns"])
        ev += r["evaluations"]
        trunc |= r["truncated"]

    rc = 0
    if vio:
        rc = 1
        os.makedirs(os.path.join(HERE, "replays"), exist_ok=True)
        path = a.replay or os.path.join(HERE, "replays", f"{pid}.json")
        vio.sort(key=lambda v: len(json.dumps(v["case"])))
        if not a.replay:
            json.dump({"property": pid, "seed": a.seed, "tier": tier, **vio[0], "others": vio[1:4]}, open(path, "w"), indent=1)
        for v in vio[:3]:
            print(f"  {pid}: {v['message'][:700]}\n    case: {json.dumps(v['case'])[:700]}")
        print(f"VIOLATION property={pid} replay={os.path.relpath(path, HERE)}")
    elif broken:
        rc = 2
        print(f"inconclusive: {len(broken)} worker(s) without a verdict\n" + "\n".join(b[:1500] for b in broken[:2]))
    elif not a.replay:
        short = {k: (counts.get(k, 0), m) for k, m in p["min"].items() if counts.get(k, 0) < m}
        if len(keys) < p.get("distinct", 2):
            short["distinct_nontrivial"] = (len(keys), p.get("distinct", 2))
        if short:
            rc = 2
            print(f"inconclusive: monitors observed too little {short}")
    for k in sorted(knowns):
        print(f"KNOWN-FINDING: property={pid} {known[k]} [e.g. {knowns[k][:300]}]")
    if not a.replay:
        os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
        evd = {"property": pid, "tier": tier, "seed": a.seed, "level": p.get("level", "exploration"),
               "coverage": {"evaluations": ev, "distinct_nontrivial": len(keys), "rule": p["rule"], "samples": samples[:8] or ["-"],
                            "observed": dict(sorted(counts.items())), "workers": workers, "stopped_by_wall_clock": trunc,
                            "workers_without_result": len(broken), "known_findings_seen": sorted(knowns)},
               "assumptions": p.get("assume", []), "wall_s": round(time.monotonic() - t0, 2), "violations": len(vio)}
        tmp = os.path.join(HERE, "evidence", f".{pid}.tmp")
        json.dump(evd, open(tmp, "w"), indent=1)
        os.replace(tmp, os.path.join(HERE, "evidence", f"{pid}.json"))
    print(f"{pid} {tier} seed={a.seed}: exit {rc}; {ev} evaluations, {len(keys)} distinct, {round(time.monotonic() - t0, 1)} s; "
          + ", ".join(f"{k}={v}" for k, v in sorted(counts.items()))[:1500])
    return rc


if __name__ == "__main__":
    sys.exit(main())
