"""C14: parsing and validating from several threads at once gives every thread its own right answer."""
import json
import os
import random
import subprocess
import sys
import threading
import time
import traceback

from .. import common, gen, ref, sut, words
from .c13 import twin

WAITS = True
CONFIGS = [["text", "Eq", "NFC"], ["lemma", "Ne", "NFD"], ["word", "Eq", None]]


class Yielder:
    """sys.monitoring hook: gives up the processor at random lines of the code under test and records the switches"""

    TOOL = 4

    def __init__(self, rate):
        self.rate = rate
        self.last = None
        self.switches = set()
        self.events = 0
        self.local = threading.local()

    def __enter__(self):
        mon = sys.monitoring
        mon.use_tool_id(self.TOOL, "vf-yield")
        mon.register_callback(self.TOOL, mon.events.LINE, self.line)
        mon.set_events(self.TOOL, mon.events.LINE)
        mon.restart_events()
        return self

    def __exit__(self, *a):
        mon = sys.monitoring
        mon.set_events(self.TOOL, 0)
        mon.register_callback(self.TOOL, mon.events.LINE, None)
        mon.free_tool_id(self.TOOL)

    def line(self, code, line):
        if not code.co_filename.startswith(sut.SRC):
            return sys.monitoring.DISABLE
        me = threading.get_ident()
        here = (code.co_name, line)
        last = self.last
        self.last = (me, here)
        self.events += 1
        if last is not None and last[0] != me:
            if len(self.switches) < 200000:
                self.switches.add((last[1], here))
        rnd = getattr(self.local, "rnd", None)
        if rnd is None:
            rnd = self.local.rnd = random.Random(me)
        if rnd.random() < self.rate:
            time.sleep(0)


class Parents(sut.fv.FCSQLValidator):
    """notes the conditions for which another parent than its own is reported"""

    def __init__(self, **kw):
        super().__init__(**kw)
        self.wrong = []
        self.asked = 0

    def visit_Expression(self, node):
        self.asked += 1
        if self.parent_node is not node.parent:
            self.wrong.append((str(node)[:100], str(self.parent_node)[:100]))
        return super().visit_Expression(node)

    def visit_QuerySegment(self, node):
        super().visit_QuerySegment(node)
        if self.parent_node is not node.parent:
            self.wrong.append((str(node)[:100], str(self.parent_node)[:100]))


def cases(ctx):
    r = ctx.rng
    for _ in range(ctx.share(ctx.n)):
        yield {"seed": r.randrange(2**48), "k": "round"}
        if r.random() < 0.15:
            yield {"seed": r.randrange(2**48), "k": "cold"}


def evaluate(case, ctx):
    if case["k"] == "cold":
        spec = {"pid": ctx.pid, "tier": ctx.tier, "seed": ctx.seed, "worker": 0, "workers": 1, "n": 0, "wall": 300, "known": [],
                "replay": ascii({"seed": case["seed"], "k": "round"}), "out": os.path.join(os.environ["VF_SCRATCH"], f"cold{os.getpid()}.json")}
        sp = spec["out"] + ".spec"
        json.dump(spec, open(sp, "w"))
        pr = subprocess.run([sys.executable, "-B", "-m", "vf.core", sp], capture_output=True, text=True, timeout=600)
        if not os.path.exists(spec["out"]):
            raise RuntimeError("cold round failed: " + pr.stderr[-800:])
        res = json.load(open(spec["out"]))
        os.unlink(spec["out"])
        ctx.violations += res["violations"]
        ctx.keys.update(res["keys"])
        for k, v in res["counts"].items():
            ctx.hit(k, v)
        ctx.hit("cold rounds")
        return
    r = common.derive(case["seed"])
    T = r.choice([2, 3, 4, 6, 8])
    mode = r.choice(["own", "own", "shared", "module", "validate", "mixed", "tree"])
    g = gen.Gen(r, hostile=False, maxnot=2)
    pool = []
    while len(pool) < 14:
        c = r.choice(CONFIGS)
        t = g.query(r.choice([1, 2, 3, 5]))[0] if r.random() < 0.75 else gen.hostile(r)
        if t.count("!") > 3 or len(t) > 400:
            continue
        pool.append(t)
        if r.random() < 0.5:
            pool.append(twin(r, t))
    pool = [t for t in pool if t.count("!") <= 3]
    if words.INTS and r.random() < 0.6:
        # many texts of one size, or with one number of parts
        n = words.size(r, 60) or 30
        if r.random() < 0.5:
            n = words.size(r, 400) or n
            pool = [t + r.choice(" \n") * (n - len(t)) for t in pool if len(t) <= n] + [f'"{i}' + "x" * (n - 3) + '"' for i in range(8)]
        else:
            pool = [r.choice(" |").join(r.choice([f'"{i}"', f'[text="{i}"]', '[pos="x"]', f'"{i}{j}"+']) for j in range(n)) for i in range(10)]
    want = {}
    for c in CONFIGS:
        for t in pool:
            v = common.expect(t, c)
            want[t, tuple(c)] = None if v.limit else ("ok", v.tree, v) if v.ok else ("rejected", None, v)
    shared = {tuple(c): sut.parser(common.cfg(c), True) for c in CONFIGS}
    sharedtree = None
    if mode == "tree":
        t = next((t for t in pool if want[t, ("text", "Eq", "NFC")] and want[t, ("text", "Eq", "NFC")][0] == "ok"), '"a" | ("b" "c")')
        sharedtree = sut.fcsql.parse(t)
        snap0 = sut.snap(sharedtree)
        str0 = str(sharedtree)
        spec0 = [x[0] for x in ref.validate_spec(snap0)]
    bad = []
    log = []
    asked = []
    barrier = threading.Barrier(T)

    def body(me, seed):
        rr = random.Random(seed)
        try:
            own = {tuple(c): sut.parser(common.cfg(c), True) for c in CONFIGS}
            val = Parents(raise_at_first_violation=False)
            barrier.wait(60)
            for step in range(10):
                if bad:
                    return
                md = mode if mode != "mixed" else rr.choice(["own", "shared", "module", "validate"])
                c = tuple(rr.choice(CONFIGS)) if md in ("own", "shared") else ("text", "Eq", "NFC")
                t = rr.choice(pool)
                if val.wrong:
                    bad.append(f"{md}: wrong parent reported by a validator of this thread: {val.wrong[0]}")
                if md == "tree":
                    if str(sharedtree) != str0:
                        bad.append(f"rendering of a shared tree differs: {t!r:.100}")
                    v = val.validate(sharedtree)
                    sev = ["error" if e.type == "validation-error" else "warning" for e in val.errors + val.warnings]
                    if sorted(sev) != sorted(spec0) or v is not ("error" not in spec0):
                        bad.append(f"validation of a shared tree differs: {sev} instead of {spec0}")
                    log.append(me)
                    continue
                w = want[t, c]
                if w is None:
                    continue
                p = own[c] if md in ("own", "validate") else shared[c]
                loc = md != "module" or rr.random() < 0.6
                try:
                    y = sut.fcsql.parse(t, enableSourceLocations=loc) if md == "module" else p.parse(t)
                    kind = "ok"
                except sut.fp.QueryParserException as ex:
                    kind, y = "rejected", ex
                log.append(me)
                if kind != w[0]:
                    bad.append(f"{md}: {t[:200]!r} with {c}: {kind} ({y!s:.150}), expected {w[0]}")
                    return
                if md == "own" and kind == "rejected" and w[2].syntax and p.errors:
                    bad.append(f"{md}: syntax errors of another query listed: {p.errors!r:.200}")
                if md == "own" and kind == "rejected" and not w[2].syntax:
                    e = p.errors
                    if not e or e[0].message not in str(y):
                        bad.append(f"{md}: {t[:100]!r}: exception {y!s:.100}, details {e!r:.100}")
                    elif any(x.fragment is not None and not t.startswith(x.fragment) for x in e):
                        bad.append(f"{md}: {t[:100]!r}: detail of another query {e!r:.200}")
                if kind == "ok":
                    got = sut.snap(y)
                    if got.key() != w[1].key(loc) and "!" not in t:
                        bad.append(f"{md}: {t[:200]!r} with {c}: {got!r:.300} instead of {w[1]!r:.300}")
                        return
                    if md == "own" and p.errors:
                        bad.append(f"{md}: accepted but errors listed {p.errors!r:.200}")
                    if md in ("validate", "own"):
                        spec = ref.validate_spec(got)
                        ok = val.validate(y, query=t)
                        e = [(x.position.start, x.position.stop) for x in val.errors]
                        wn = [(x.position.start, x.position.stop) for x in val.warnings]
                        if e != [n.loc for s, n, _ in spec if s == "error"] or wn != [n.loc for s, n, _ in spec if s == "warning"] or ok is not (not e):
                            bad.append(f"{md}: validation of {t[:200]!r}: {e} / {wn} instead of {[(s, n.loc) for s, n, _ in spec]}")
                        if any(x.fragment != t[x.position.start:x.position.stop] for x in val.errors):
                            bad.append(f"{md}: fragment of another query in {val.errors!r:.200}")
                        if md == "validate":
                            r2 = sut.fcsql.validate(t)
                            if r2 is not (not e):
                                bad.append(f"validate({t[:200]!r}) is {r2}")
            if val.wrong:
                bad.append(f"{md}: wrong parent reported by a validator of this thread: {val.wrong[0]}")
            asked.append(val.asked)
        except threading.BrokenBarrierError:
            bad.append("inconclusive: barrier")
        except BaseException as ex:
            bad.append(f"{mode}: {type(ex).__name__} in a thread: {str(ex)[:200]} " + traceback.format_exc()[-600:].replace("\n", " / "))

    old = sys.getswitchinterval()
    sys.setswitchinterval(1e-6)
    rate = r.choice([0.0, 0.02, 0.1, 0.3])
    try:
        with Yielder(rate) as y:
            ths = [threading.Thread(target=body, args=(i, r.randrange(2**48)), daemon=True) for i in range(T)]
            for th in ths:
                th.start()
            for th in ths:
                th.join(90)
            hung = [th for th in ths if th.is_alive()]
            if hung:
                c0 = time.process_time()
                time.sleep(4)
                blocked = time.process_time() - c0 < 0.3 and all(th.is_alive() for th in hung)
                fr = sys._current_frames().get(hung[0].ident)
                where = "".join(traceback.format_stack(fr)[-4:]).replace("\n", " / ") if fr else "?"
    finally:
        sys.setswitchinterval(old)
    if hung and blocked and sut.SRC in where:
        ctx.violation(f"{T} threads, mode {mode}: {len(hung)} of them are blocked for good at {where[-500:]}")
        ctx.hung = True
        return
    if hung:
        raise RuntimeError(f"threads did not finish in 90 s (inconclusive): {where}")
    ctx.hit("rounds")
    ctx.hit("mode:" + mode)
    ctx.hit("operations observed", len(log))
    ctx.hit("line events", y.events)
    ctx.hit("parents asked for", sum(asked))
    ctx.hit("operation-level switches", sum(1 for a, b in zip(log, log[1:]) if a != b))
    for s in y.switches:
        ctx.distinct(s)
    ctx.hit("distinct switch points (per round)", len(y.switches))
    ctx.sample({"threads": T, "mode": mode, "yield rate": rate, "switch points": len(y.switches), "texts": [t[:60] for t in pool[:3]]}, 2)
    if mode == "tree" and sut.snap(sharedtree).key() != snap0.key():
        bad.append("a shared tree was changed by reading it")
    for b in bad[:2]:
        ctx.violation(f"{T} threads: {b}")
