"""C29: the same answers under every interpreter setting, environment and order of imports."""
import ast
import functools
import os
import signal
import subprocess
import sys
import tempfile
import time

from .. import common, gen, ref, sut, vconf

WAITS = True

MODS = ["fcsql", "fcsql.parser", "fcsql.validation", "fcsql.FCSLexer", "fcsql.FCSParser", "fcsql.FCSParserVisitor", "fcsql.FCSParserListener"]
VARIANTS = [
    {"env": {"PYTHONHASHSEED": "0"}},
    {"env": {"PYTHONHASHSEED": "1"}},
    {"env": {"PYTHONHASHSEED": "12345"}},
    {"env": {"PYTHONHASHSEED": "random"}},
    {"env": {"PYTHONHASHSEED": "random"}, "flags": ["-O"]},
    {"flags": ["-O"]},
    {"flags": ["-OO"]},
    {"flags": ["-O"], "order": ["fcsql.validation"]},
    {"flags": ["-W", "error"]},
    {"flags": ["-bb", "-W", "error"]},
    {"flags": ["-X", "dev"]},
    {"flags": ["-I"]},
    {"flags": ["-X", "utf8=0"], "env": {"LC_ALL": "C", "LANG": "C", "PYTHONCOERCECLOCALE": "0"}},
    {"flags": ["-X", "utf8=0"], "env": {"LC_ALL": "POSIX", "PYTHONIOENCODING": "ascii:strict", "PYTHONCOERCECLOCALE": "0"}},
    {"env": {"PYTHONIOENCODING": "utf-16"}},
    {"env": {"LC_ALL": "tr_TR.UTF-8", "LANGUAGE": "tr"}},
    {"env": {"TZ": "Pacific/Kiritimati"}},
    {"stdio": "closed"},
    {"stdio": "null"},
    {"thread": True},
    {"thread": True, "flags": ["-O"]},
    {"cwd": True, "home": False},
    {"env": {}, "bare": True},
    {"flags": ["-u"], "order": ["fcsql.parser"]},
    {"order": ["fcsql.FCSParserVisitor", "fcsql.FCSParser", "fcsql.FCSLexer"]},
    {"order": ["fcsql.validation", "fcsql.FCSParserListener"]},
    {"unprivileged": True},
    {"flags": ["-X", "importtime"], "quiet": False},
    {"flags": ["-X", "frozen_modules=off"]},
    {"env": {"PYTHONMALLOC": "debug"}},
    {"env": {"PYTHONDONTWRITEBYTECODE": ""}},
    {"flags": ["-P", "-s", "-E"]},
    {"env": {"TZ": "EST5EDT,M3.2.0,M11.1.0", "COLUMNS": "40", "LINES": "5", "TERM": "dumb", "NO_COLOR": "1", "FORCE_COLOR": "1"}},
    {"env": {"TZ": "XXX-14YYY-15", "COLUMNS": "0", "TERM": "xterm-256color", "DEBUG": "1", "VERBOSE": "1", "CI": "true", "LOGLEVEL": "DEBUG"}},
    {"env": {"COLUMNS": "100000", "PYTHONDEBUG": "1", "PYTHONINSPECT": "", "EDITOR": "x", "LANGUAGE": "de:fr", "LC_NUMERIC": "de_DE.UTF-8"}},
    {"clock": 3e8},
    {"clock": -1.2e9},
    {"argv": ["prog", "-O", "--verbose", "--debug", "--help"], "gc": False},
    {"argv": [""], "gc": True, "count": 40},
    {"limits": True},
    {"guided": True},
]
GUESSES = ["", "0", "1", "40", "100000", "true", "DEBUG", "/nonexistent", "xx", "-1", "3.5", "C", "de_DE"]


def cases(ctx):
    r = ctx.rng
    todo = [{"v": i, "reverse": b} for i in range(len(VARIANTS)) for b in (False, True)]
    for rounds in range(ctx.n):
        seed = common.derive(ctx.seed, rounds).randrange(2**48)
        for c in ctx.mine(todo):
            yield {**c, "seed": seed, "count": 700 if ctx.thorough else 130}


def items(seed, n):
    r = common.derive(seed)
    g = gen.Gen(r, maxnot=2)
    out = []
    while len(out) < n:
        x = len(out) % 5
        t = g.query(r.choice([1, 2, 4, 8]))[0] if x < 2 else gen.hostile(r) if x == 2 else vconf.query(r) if x == 3 else gen.bad_semantics(r, g)
        if t.count("!") <= 3 and len(t) < 800:
            out.append([t, common.rcfg(r)])
    for f in ("i", "I", "cd", "dC", "ld", "di"):
        out.append([f'[x:lemma!="a"/{f}] within s', ["text", "Eq", "NFC"]])
    for t in ['"\u0130i\u0131I"', '"\ufb01\u212b"', '"a" within S', '[TEXT="a"]', '"%s" {', "'\u20ac'", "\u20ac", '"\ud83d"', '"a" "b" | ("c")', '[a!="a.*"/l]', '"a"{' + "9" * 5000 + "}", '"a"{3,1}', '"\\UFFFFFFFF"', '"a"/iI', '"a"/ld', "(" * 1500, '"a" #', "", "'a", '"a"{}', '"a" within', '[a="b"', '"a\\q"', "[word='a'/i] [x:pos='b'] [x-y='c']", " ".join(f'"w{i}"' for i in range(60)), "|".join(f'[foo="w{i}" & pos="n{i}"]' for i in range(30)), '"' + "long value " * 40 + '"',
              "[" + " & ".join(f'word="{i}"' for i in range(40)) + "] within s", "(" * 40 + '"a"' + ")" * 40, "# " * 40, '"a" ' * 30 + ")"]:
        for c in (["text", "Eq", "NFC"], ["text", "Ne", "NFKC"]):
            out.append([t, c])
    return out


ASKED = {}


CPU = {}


def limits(v):
    import resource
    if 0 in CPU:
        # far more work than under default settings counts as no answer
        n = int(20 + 12 * CPU[0])
        resource.setrlimit(resource.RLIMIT_CPU, (n, n + 5))
    if v.get("stdio") == "closed":
        for f in (0, 1, 2):
            os.close(f)
    if v.get("limits"):
        lower()


def lower():
    import resource
    for what, n in ((resource.RLIMIT_NOFILE, 24), (resource.RLIMIT_CORE, 0), (resource.RLIMIT_FSIZE, 1 << 24)):
        hard = resource.getrlimit(what)[1]
        resource.setrlimit(what, (n if hard == resource.RLIM_INFINITY else min(n, hard), hard))
    os.umask(0o777 if os.getuid() == 0 else 0o77)
    os.nice(5)


def start(v, its, reverse, record=False):
    """run the battery under a variant, return its records in the order of its"""
    work = tempfile.mkdtemp(prefix="c29-", dir=os.environ["VF_SCRATCH"])
    os.chmod(os.environ["VF_SCRATCH"], 0o755)
    os.chmod(work, 0o777)
    spec, out = os.path.join(work, "spec.json"), os.path.join(work, "out.json")
    spec_text = ascii({"src": sut.SRC, "order": v.get("order", []), "thread": v.get("thread", False), "record": record, "clock": v.get("clock"), "argv": v.get("argv"), "gc": v.get("gc"), "items": [[i, t, c] for i, (t, c) in enumerate(its)][::-1 if reverse else 1]})
    open(spec, "w").write(spec_text)  # not JSON: it would join neighbouring surrogates
    env = {k: x for k, x in os.environ.items() if k not in ("PYTHONPATH", "PYTHONHASHSEED", "LC_ALL", "LANG", "PYTHONPYCACHEPREFIX")}
    if v.get("bare"):
        env = {}
    env["PYTHONPYCACHEPREFIX"] = os.path.join(work, "pyc")
    env.update(v.get("env", {}))
    here = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "battery.py")
    kw = {"preexec_fn": lambda: limits(v)}
    if v.get("cwd"):
        kw["cwd"] = work
    if v.get("unprivileged") and os.getuid() == 0:
        kw.update(user=65534, group=65534, extra_groups=[])
    flags = v.get("flags", [])
    t0 = time.monotonic()
    pr = subprocess.run([sys.executable, "-B", *flags, here, spec, out], env=env, stdin=subprocess.DEVNULL, stdout=subprocess.PIPE,
                        stderr=subprocess.PIPE, timeout=2000, **kw)
    if pr.returncode in (-signal.SIGXCPU, -signal.SIGKILL) and time.monotonic() - t0 > CPU.get(0, 1e9) * 10:
        return None, f"no answers after {int(20 + 12 * CPU[0])} s of processor time, where {CPU[0]:.1f} s were enough under default settings"
    if not os.path.exists(out):
        return None, pr.stderr[-700:].decode("utf-8", "replace")
    d = ast.literal_eval(open(out).read())
    if d["failed"]:
        return None, d["failed"][0][-700:]
    if record:
        CPU[0] = d["cpu"]
        CPU[1] = 0
    CPU[1] = max(CPU[1], d["cpu"])
    if record:
        ASKED[0] = d["asked"]
    return (d["results"][::-1] if reverse else d["results"]), pr.stderr.decode("utf-8", "replace")


def tree(n):
    out = []
    for x in n.walk():
        d = {}
        fl = x.at.get("flags")
        names = {"qualifier": "qualifier", "identifier": "identifier", "operator": "operator", "regex": "regex", "min": "min_occurs", "max": "max_occurs", "scope": "scope"}
        for a, b in names.items():
            if a in x.at:
                d[b] = x.at[a]
        d["flags"] = None if fl is None else sorted(fl)
        d["kind"] = x.kind
        d["n"] = len(x.kids)
        d["loc"] = list(x.loc)
        out.append(d)
    return out


@functools.lru_cache(None)
def reachable():
    """can the unprivileged user read the files at all (that is up to whoever installed them)"""
    if os.getuid() != 0:
        return True
    here = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "battery.py")
    test = "import os, sys, antlr4; open(sys.argv[1]).read(); [open(os.path.join(sys.argv[2], 'fcsql', f)).read() for f in os.listdir(os.path.join(sys.argv[2], 'fcsql')) if f.endswith('.py')]; os.listdir(sys.argv[3])"
    pr = subprocess.run([sys.executable, "-B", "-c", test, here, sut.SRC, os.environ["VF_SCRATCH"]], user=65534, group=65534, extra_groups=[], stdin=subprocess.DEVNULL, capture_output=True, timeout=300)
    return pr.returncode == 0


REFERENCE = {}


def evaluate(case, ctx):
    v = VARIANTS[case["v"]]
    its = items(case["seed"], case["count"])
    key = (case["seed"], case["count"])
    if key not in REFERENCE:
        REFERENCE.clear()
        REFERENCE[key], why = start({"env": {"PYTHONHASHSEED": "0"}}, its, False, record=True)
        if REFERENCE[key] is None:
            ctx.violation(f"the battery fails under default settings: {why}")
            return
        for i, ((t, c), rec) in enumerate(zip(its, REFERENCE[key])):
            w = common.expect(t, c)
            if w.limit:
                continue
            if ("tree" in rec) is not w.ok:
                ctx.violation(f"{t[:200]!r} with {c}: accepted is {'tree' in rec}, expected {w.ok}")
                return
            if w.ok and "!" not in t:
                got = [{k: x for k, x in d.items() if k != "type"} for d in rec["tree"]]
                want = tree(w.tree)
                if not i % 3:
                    for d in want:
                        d["loc"] = None
                if got != want:
                    j = next(j for j, (a, b) in enumerate(zip(got + [0], want + [1])) if a != b)
                    ctx.violation(f"{t[:200]!r} with {c}: node {j} is {got[j:j + 1]}, expected {want[j:j + 1]}")
                    return
            ctx.hit("compared with the model")
    if v.get("unprivileged") and not reachable():
        ctx.hit("unprivileged user cannot reach the files")
        return
    if v.get("guided"):
        # environment variables the library was seen to ask for, with values of many kinds
        ctx.hit("environment variables asked for", len(ASKED[0]))
        if ASKED[0]:
            ctx.sample({"asked for": ASKED[0][:20]})
        for name in [x for x in ASKED[0] if "=" not in x and x != "*" and x.isascii()][:6]:
            for value in GUESSES:
                got, why = start({"env": {name: value}}, its, False)
                if not compare(ctx, {"env": {name: value}}, its, REFERENCE[key], got, why, False):
                    return
                ctx.hit("guided environments")
        return
    if "count" in v:
        k = (len(its) - v["count"]) // 6 * 6  # the settings of an item depend on its number modulo 6
        got, why = start(v, its[k:], case["reverse"])
        compare(ctx, v, its[k:], REFERENCE[key][k:], got, why, case["reverse"])
        return
    got, why = start(v, its, case["reverse"])
    if not compare(ctx, v, its, REFERENCE[key], got, why, case["reverse"]):
        return
    for t, c in its:
        ctx.distinct(case["v"], t, c)
    ctx.sample({"variant": v, "reverse": case["reverse"], "texts": [t for t, _ in its[:2]]})


def compare(ctx, v, its, want, got, why, reverse):
    if got is None:
        ctx.violation(f"with {v}: the library fails: {why}")
        return False
    ctx.hit("processes started")
    ctx.peak("processor time / under default settings", round(CPU[1] / CPU[0], 1))
    for (t, c), a, b in zip(its, want, got):
        ctx.hit("results compared")
        if a != b:
            ks = [k for k in a if a.get(k) != b.get(k)] + [k for k in b if k not in a]
            ctx.violation(f"{t[:200]!r} with {c} under {v}{' in reverse order' if reverse else ''}: {ks[0]} is {b.get(ks[0])!r:.250}, otherwise {a.get(ks[0])!r:.250}")
            return False
    return True
