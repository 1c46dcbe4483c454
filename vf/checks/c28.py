"""C28: the work a query causes stays in proportion to its length (bounded growth), whatever was parsed before."""
import json
import os
import subprocess
import sys
import time

from .. import common, gen, ref, sut

fp = sut.fp
WAITS = True

FAM = {
    "seq": lambda n: '"a" ' * n,
    "alt": lambda n: "|".join(['"a"'] * n),
    "altseq": lambda n: "|".join(['"a" "b"'] * n),
    "group": lambda n: "(" * n + '"a"' + ")" * n,
    "groupseq": lambda n: '("a" ' * n + '"b"' + ")" * n,
    "groupalt": lambda n: '("a"|' * n + '"b"' + ")" * n,
    "groups": lambda n: '("a"|"b"){1,2} ' * n,
    "eor": lambda n: "[" + "|".join(['a="b"'] * n) + "]",
    "eand": lambda n: "[" + "&".join(['a="b"'] * n) + "]",
    "eandor": lambda n: "[" + "|".join(['a="b"&c="d"'] * n) + "]",
    "epar": lambda n: "[" + "(" * n + 'a="b"' + ")" * n + "]",
    "eparand": lambda n: "[" + '(a="b"&' * n + 'a="b"' + ")" * n + "]",
    "eparor": lambda n: "[" + '(a="b"|' * n + 'a="b"' + ")" * n + "]",
    "eparmix": lambda n: "[" + '(a="b"|' * (n // 2) + '(c="d"&' * (n // 2) + 'a="b"' + ")" * (n // 2 * 2) + "]",
    "notpar": lambda n: "[" + "!(" * n + 'a="b"' + ")" * n + "]",
    "notlist": lambda n: "[" + "&".join(['!a="b"'] * n) + "]",
    "notor": lambda n: "[" + "|".join(['!a="b"'] * n) + "]",
    "lit": lambda n: '"' + "a" * (n * 50) + '"',
    "esc": lambda n: '"' + "\\n\\u0041" * (n * 10) + '"',
    "id": lambda n: "[" + "a-" * (n * 20) + 'b="c"]',
    "ws": lambda n: " " * n * 50 + '"a"' + "\n" * n * 50,
    "int": lambda n: '"a"{' + "1" * n * 10 + "}",
    "flags": lambda n: '"a"/' + "i" * n * 10,
    "junk": lambda n: "#" * n,
    "bad": lambda n: '"a" ) ' * n,
    "unclosed": lambda n: "(" * n,
    "segs": lambda n: '[a="b" & c="d"] ' * n,
    "within": lambda n: '"a" ' * n + "within s",
    "quoted": lambda n: '"a' + "\\\\" * n * 20,
    "curl": lambda n: '"a"{' * n,
    "open": lambda n: '["' * n,
    "rp": lambda n: ")" * n,
    "wild": lambda n: "[]{1,2} " * n,
    "segor": lambda n: "|".join(['[a="b"]{2}'] * n),
    "groupor": lambda n: "(" + "|".join(['("a" "b")'] * n) + ")",
    "nestseq": lambda n: '("a" ' * n + ")" * n,
    "withins": lambda n: '"a" ' + "within s " * n,
    "quotes": lambda n: '"' * (2 * n * 10 + 1),
}
BASE = os.path.join(os.path.dirname(os.path.abspath(__file__)), "c28_base.json")
SLACK = 4
BULK = {"lit": 500, "esc": 1500, "ws": 300, "junk": 4000, "seq": 1000, "within": 1000, "id": 800, "bad": 800, "alt": 250, "flags": 600, "segs": 250, "quoted": 400}


def sizes(f, thorough):
    small = f in ("eandor", "notlist", "notor", "eparmix", "groupalt")
    if not thorough:
        return [8, 16] if small else [8, 32]
    return [8, 16, 24] if small else [8, 16, 32, 64]


def cases(ctx):
    r = ctx.rng
    todo = [{"k": "family", "f": f, "n": n, "what": w} for f in FAM for n in sizes(f, ctx.thorough) for w in ("parse", "plain", "tree", "validate")]
    todo += [{"k": "bulk", "f": f, "n": n} for f, n in BULK.items()]
    todo += [{"k": "treebulk", "f": f} for f in TREES]
    todo += [{"k": "not"}]
    todo += [{"k": "shape", "f": f, "n": n} for f in list(FAM) + list(SHAPES) for n in shape_sizes(f, ctx.thorough)]
    todo = list(ctx.mine(sorted(todo, key=lambda c: (c["k"] != "bulk", c.get("f", ""), c.get("n", 0), c.get("what", "")))))
    for c in todo:
        yield c
    for _ in range(ctx.share(8 * ctx.n)):
        yield {"k": "history", "seed": r.randrange(2**48)}
    for _ in range(ctx.share(1200 * ctx.n)):
        yield {"k": "own", "seed": r.randrange(2**48)}


def many(what):
    """a wide tree of n parts made by hand"""
    def make(n):
        kids = []
        for i in range(n):
            e = {"warned": lambda: fp.Expression(None, "word", fp.Operator.EQUALS, "a", None), "wrong": lambda: fp.Expression(None, f"nope{i}", fp.Operator.EQUALS, "a", None),
                 "wrong value": lambda: fp.Expression(None, "pos", fp.Operator.EQUALS, f"nope{i}", None),
                 "fine": lambda: fp.Expression("q", "lemma", fp.Operator.NOT_EQUALS, f"v{i}", {fp.RegexFlag.CASE_INSENSITIVE}),
                 "wild": fp.ExpressionWildcard}[what]()
            e.location = fp.SourceLocation(i, i + 1)
            s = fp.QuerySegment(e, 1, 2)
            s.location = fp.SourceLocation(i, i + 1)
            kids.append(fp.QueryGroup(s, 1, 1) if i % 2 else s)
        return fp.QuerySequence(kids) if n % 2 else fp.QueryDisjunction(kids)
    return make


TREES = {w: many(w) for w in ("warned", "wrong", "wrong value", "fine", "wild")}


def time_tree(f, n):
    """processor time of everything that can be done with a tree, without the making of the tree"""
    best = {}
    for _ in range(2):
        tree = TREES[f](n)
        uses = {"print": lambda: str(tree), "visit": lambda: Plain().visit(tree), "validate": lambda: sut.fv.FCSQLValidator(raise_at_first_violation=False).validate(tree, query="x" * n),
                "validate strictly": lambda: sut.fv.FCSQLValidator(raise_at_first_violation=False, warnings_as_errors=True).validate(tree),
                "look up": lambda: [(tree.get_child(n - 1), tree.get_last_child(), tree.child_count) for _ in range(10)]}
        for k, use in uses.items():
            t0 = time.process_time()
            use()
            d = time.process_time() - t0
            best[k] = min(d, best.get(k, d))
    return best


class Plain(fp.QueryVisitorAdapter):
    pass


SHAPES = {
    "fatgroup": lambda n: "(" * n + '"a" ' * n + ")" * n,
    "fatgroupq": lambda n: "(" * n + '"a"+ ' * n + "){1,2}" * n,
    "fatpar": lambda n: "[" + "(" * n + "&".join(['a="b"'] * n) + ")" * n + "]",
    "fatalt": lambda n: '"z" | ' + "(" * n + " ".join('"w%d"' % i for i in range(n)) + ")" * n + " within s",
    "distinct": lambda n: " ".join('[x%s="w%d"]' % ("a" * (i % 9), i) for i in range(n)),
    "flagged": lambda n: " ".join('[a="\\n\\u0041%d"/id]{%d,}' % (i, i) for i in range(n)),
    "badfront": lambda n: "# " * n + '"a" ' * n,
    "manyerr": lambda n: '"a" # ) ' * n,
}


FLAT = ["seq", "alt", "eor", "eand", "segs", "within", "wild", "distinct", "flagged", "altseq", "groups", "junk", "bad", "esc", "int", "flags", "badfront", "manyerr", "curl", "open", "rp", "withins", "lit", "id", "ws", "quoted"]


def shape_sizes(f, thorough):
    if f in FLAT:
        return [12, 24, 48, 70, 400, 1200] if thorough else [32, 400]
    if f in ("eandor", "notlist", "notor", "groupalt"):
        return [12] if thorough else [6]
    if f in ("groupor", "eparand", "segor"):
        return [12, 24, 32] if thorough else [16]
    return [12, 24, 48, 70] if thorough else [32]


def measure(texts, what, cap, timeout=400, warm=False):
    d = os.environ["VF_SCRATCH"]
    sp, out = (os.path.join(d, f"cost{os.getpid()}.{x}") for x in ("spec", "out"))
    if os.path.exists(out):
        os.unlink(out)
    json.dump({"texts": texts, "what": what, "cap": cap, "warm": warm}, open(sp, "w"))
    try:
        pr = subprocess.run([sys.executable, "-B", "-m", "vf.cost", sp, out], capture_output=True, text=True, timeout=timeout)
    except subprocess.TimeoutExpired:
        return None
    if not os.path.exists(out):
        raise RuntimeError("measurement failed: " + pr.stderr[-800:])
    return json.load(open(out))


def evaluate(case, ctx):
    k = case["k"]
    ctx.hit("k:" + k)
    if k == "family":
        f, n, what = case["f"], case["n"], case["what"]
        base = json.load(open(BASE))[f"{f}/{n}/{'parse' if what == 'plain' else what}"]
        bound = SLACK * base + 50000
        res = measure([FAM[f](n)], what, bound)
        if res is None or res[0]["outcome"] == "capped":
            ctx.violation(f"{what} of family {f!r} at size {n} ({FAM[f](n)[:60]!r}...) needs more than {bound} steps (reference {base})")
            return
        ctx.hit("steps observed", res[0]["lines"])
        ctx.distinct(f, n, what, res[0]["lines"])
        ctx.sample({**case, "steps": res[0]["lines"], "bound": bound})
    elif k == "shape":
        # the work outside the look-ahead of the ANTLR runtime grows in proportion to the size of the query
        f, n = case["f"], case["n"]
        fam = FAM.get(f) or SHAPES[f]
        for what in ("tree", "validate") if not ctx.thorough else ("parse", "plain", "tree", "validate"):
            a = measure([fam(2), fam(n), fam(2 * n)], what, 400_000_000, warm=True)
            if a is None or len(a) < 3 or a[-1]["outcome"] == "capped":
                ctx.violation(f"{what} of family {f!r} at size {2 * n}: no result")
                return
            z, x, y = (m["rest"] for m in a)
            if a[2]["outcome"] == "too deep" or a[2]["outcome"] != a[1]["outcome"]:
                ctx.hit("shapes too deep")
                return
            ctx.hit("tree steps observed", x + y)
            ctx.distinct(f, n, what, x, y)
            # in z the fixed part of the work is contained
            q = max(0, y - x) / max(1, x - z)
            want = (len(fam(2 * n)) - len(fam(n))) / max(1, len(fam(n)) - len(fam(2)))
            ctx.peak("growth of the steps / growth of the text", round(q / want, 2))
            if q > 1.35 * want and y - x > 500:
                ctx.violation(f"{what} of family {f!r}: {z}, {x}, {y} steps outside the look-ahead at sizes 2, {n}, {2 * n}, more than in proportion")
                return
            # the same for each function of the library on its own
            for fn, y in a[2]["by"].items():
                x, z = a[1]["by"].get(fn, 0), a[0]["by"].get(fn, 0)
                if y - x > 500:
                    q = (y - x) / max(1, x - z)
                    ctx.hit("functions compared")
                    ctx.peak("growth of one function / growth of the text", round(q / want, 2))
                    if q > 1.35 * want:
                        ctx.violation(f"{what} of family {f!r}: {fn} takes {z}, {x}, {y} steps at sizes 2, {n}, {2 * n}, more than in proportion")
                        return
    elif k == "bulk":
        f, n = case["f"], case["n"]
        a = measure([FAM[f](n // 4), FAM[f](n), FAM[f](n * 8)], "time", 0)
        if a is None:
            ctx.violation(f"family {f!r} at size {n * 8}: no result after 400 s")
            return
        x, y = a[1]["cpu"], a[2]["cpu"]
        ctx.peak(f"time ratio for 8x length: {f}", round(y / max(x, 1e-3), 1))
        ctx.hit("bulk characters", len(FAM[f](n * 8)))
        if y > 3 and y > 30 * max(x, 0.05):
            ctx.violation(f"family {f!r}: 8 times the length takes {y / max(x, 1e-3):.0f} times as long ({x:.2f} s, {y:.2f} s)")
    elif k == "treebulk":
        f = case["f"]
        x, y = time_tree(f, 2500), time_tree(f, 20000)
        ctx.hit("big trees used", len(y))
        for w in y:
            ctx.peak(f"time ratio for 8x size: {w} {f}", round(y[w] / max(x[w], 1e-3), 1))
            ctx.distinct(f, w)
            if y[w] > 3 and y[w] > 30 * max(x[w], 0.05):
                ctx.violation(f"{w} of a tree of 20000 parts ({f}) takes {y[w]:.2f} s, of 2500 parts {x[w]:.2f} s")
                return
    elif k == "not":
        a = measure(["[" + "!" * n + 'a="b"]' for n in range(1, 10)], "parse", 60_000_000)
        if a is None or a[-1]["outcome"] == "capped" or len(a) < 9:
            ctx.violation("chains of NOT need more steps than known")
            return
        grow = a[8]["lines"] / a[3]["lines"]
        ctx.peak("NOT chain growth 4 to 9", round(grow))
        if grow > (9 / 4) ** 4:
            ctx.known("not-chain", f"after 1..8 NOTs, 9 NOTs in a row need {a[8]['lines']} steps, 4 needed {a[3]['lines']}")
    elif k == "history":
        r = common.derive(case["seed"])
        g = gen.Gen(r, hostile=False, maxnot=1)
        texts = [g.query(r.choice([1, 2, 4]))[0] if r.random() < 0.7 else gen.mutate(r, g.query(2)[0]) for _ in range(6)]
        texts = [t for t in texts if t.count("!") <= 1 and len(t) < 200] or ['"a"']
        what = r.choice(["parse", "plain", "validate", "tree"])
        rounds = 60 if not ctx.thorough else 200
        a = measure(texts * rounds, what, 200_000_000)
        if a is None or a[-1]["outcome"] == "capped":
            ctx.violation(f"{what} of {texts!r:.300} again and again exhausts the budget")
            return
        per = [sum(x["lines"] for x in a[i:i + len(texts)]) for i in range(0, len(a), len(texts))]
        early, late = max(per[2:6]), max(per[-4:])
        ctx.hit("repetitions measured", len(a))
        ctx.distinct(*texts)
        if late > 1.1 * early + 200:
            ctx.violation(f"{what} of {texts!r:.300}: {early} steps at first, {late} after {rounds} repetitions")
        elif per[1] > 4 * per[0] + 5000:
            ctx.violation(f"{what} of {texts!r:.300}: {per[0]} steps the first time, {per[1]} the second")
    elif k == "own":
        from .. import cost
        r = common.derive(case["seed"])
        t = gen.Gen(r, hostile=False, maxnot=2).query(r.choice([1, 4, 16, 40]))[0]
        if t.count("!") > 4:
            return
        v = ref.analyse(t)
        size = len(v.toks) + len(t) / 8 + 5
        st = [v.cst]
        while st:
            x = st.pop()
            size += 1
            st += [y for y in x.kids if isinstance(y, ref.C)]
        for what in ("parse", "plain", "tree", "validate"):
            c = cost.Counter(60_000_000)
            try:
                with c:
                    cost.work(what, t)
            except cost.Capped:
                pass
            if c.capped:
                ctx.violation(f"{what} of {t[:200]!r}: more than {c.cap} steps")
                return
            q = c.own / size
            ctx.peak(f"own steps per element, {what}", round(q, 1))
            ctx.hit("own steps observed", c.own)
            ctx.distinct(what, c.own)
            if q > LIMIT[what]:
                ctx.violation(f"{what} of {t[:200]!r}: {c.own} steps of the library itself for {size:.0f} elements (bound {LIMIT[what]} each)")
                return


LIMIT = {"parse": 110, "plain": 110, "tree": 150, "validate": 130}


def baseline():
    """python -m vf.checks.c28 : measure the reference table"""
    from concurrent.futures import ThreadPoolExecutor
    import tempfile
    ks = sorted({(f, n, w) for f in FAM for th in (0, 1) for n in sizes(f, th) for w in ("parse", "tree", "validate")})

    def one(k):
        f, n, w = k
        with tempfile.TemporaryDirectory() as d:
            sp, out = os.path.join(d, "s"), os.path.join(d, "o")
            json.dump({"texts": [FAM[f](n)], "what": w, "cap": 10**10}, open(sp, "w"))
            subprocess.run([sys.executable, "-B", "-m", "vf.cost", sp, out], check=True)
            return f"{f}/{n}/{w}", json.load(open(out))[0]["lines"]
    with ThreadPoolExecutor(8) as ex:
        json.dump(dict(ex.map(one, ks)), open(BASE, "w"), indent=0)


if __name__ == "__main__":
    baseline()
