"""C13: what a query means does not depend on what was parsed before (long histories, twins, failures)."""
import ast
import os
import subprocess
import sys
import unicodedata

from .. import common, gen, ref, sut, words

WAITS = lambda case: case["k"] == "cold"  # noqa: E731

CONFIGS = [["text", "Eq", "NFC"], ["lemma", "Ne", "NFD"], ["text", "Eq", None], ["text", "Ne", "NFC"], ["word", "Eq", "NFKC"], ["Text", "Eq", "NFC"]]


def twin(r, t):
    """a text that a sloppy cache or shared buffer could confuse with t"""
    x = r.randrange(15)
    if x == 0:
        return t.swapcase() if "\\" not in t else t.replace('"', "'")
    if x == 1:
        return unicodedata.normalize(r.choice(["NFC", "NFD", "NFKC"]), t)
    if x == 2:
        return r.choice([" ", "\n", "\u00a0"]) + t
    if x == 3:
        return t + r.choice([" ", "\n", "\t"])
    if x == 4:
        return t.strip()
    if x == 5 and t:
        p = r.randrange(len(t))
        return t[:p] + r.choice("abx1 \"") + t[p + 1:]
    if x == 6 and t:
        return t[:-1]
    if x == 7:
        return t.replace(" ", "  ")
    if x == 8:
        return t.replace('"', "'") if "'" not in t else t.replace("'", '"')
    if x == 9:
        return t[::-1]
    if x == 10:
        return t.replace("=", "!=", 1) if "!=" not in t else t.replace("!=", "=", 1)
    if x in (11, 12) and len(t) > 2:
        # long texts that differ in the middle only
        p = len(t) // 2 + r.randrange(-len(t) // 6, len(t) // 6 + 1)
        return t[:p] + r.choice("#)]&|!=\"ab,") + t[p + 1:]
    if x == 13 and len(t) > 4:
        p = r.randrange(1, len(t) - 2)
        return t[:p] + t[p + 1] + t[p] + t[p + 2:]
    return t.casefold() if "\\" not in t else t + "x"


def texts(r, n):
    """a pool with clusters of twins"""
    g = gen.Gen(r, hostile=False, maxnot=2)
    out = []
    while len(out) < n:
        x = r.random()
        if x < 0.45:
            t = g.query(r.choice([1, 1, 2, 3, 6]))[0]
        elif x < 0.6:
            t = gen.hostile(r)
        elif x < 0.75:
            t = f'"k{r.randrange(100000)}"'
        else:
            t = gen.Gen(r, hostile=False).literal()[0]
        if len(t) > 300:
            continue
        c = [t]
        for _ in range(r.choice([0, 1, 2, 3])):
            c.append(twin(r, r.choice(c)))
        out += [x for x in c if gen.nots_ok(x)]
    return out[:n]


def cases(ctx):
    r = ctx.rng
    L = 4000 if ctx.thorough else 2600
    L = max(L, min(6000, 2 * max(words.INTS, default=0)))
    k = ctx.share(ctx.n)
    for i in range(k):
        yield {"seed": r.randrange(2**48), "len": L if i == 0 or ctx.thorough else 700, "k": "history"}
    # one parser object for all of it
    yield {"seed": r.randrange(2**48), "len": L, "k": "history", "one": True}
    for i in range(2 if not ctx.thorough else 10):
        yield {"seed": r.randrange(2**48), "len": 8, "k": "cold"}


class Model:
    def __init__(self):
        self.memo = {}

    def want(self, t, c):
        k = (t, tuple(c))
        if k not in self.memo:
            v = common.expect(t, c)
            if v.limit:
                self.memo[k] = None
            else:
                self.memo[k] = ("ok", v.tree.key(True), v.tree.key(False)) if v.ok else ("rejected",)
        return self.memo[k]


def errs(p):
    return tuple(sut.err_key(e) for e in p.errors)


def evaluate(case, ctx):
    r = common.derive(case["seed"])
    if case["k"] == "cold":
        return cold(case, ctx, r)
    m = Model()
    pool = texts(r, case["len"] * 2 // 3)
    confs = [r.choice(CONFIGS) for _ in range(3)]
    parsers = [(c, loc, sut.parser(common.cfg(c), loc)) for c in confs for loc in (True, False)][: r.choice([1, 3, 6])]
    if case.get("one"):
        c = r.choice(CONFIGS[1:])
        loc = r.random() < 0.5
        parsers = [(c, loc, sut.parser(common.cfg(c), loc))]
    first = {}
    kept = []
    recent = []
    seen = set()
    for step in range(case["len"]):
        x = r.random()
        if x < 0.12 and recent:
            t = r.choice(recent[-6:])
        elif x < 0.2 and seen:
            t = pool[r.randrange(min(len(pool), step + 1))]
        else:
            t = pool[step % len(pool)]
        recent.append(t)
        seen.add(t)
        c, loc, p = r.choice(parsers)
        w = m.want(t, c)
        if w is None:
            continue
        if r.random() < 0.4 and m.want(t, CONFIGS[0]):
            got = sut.fcsql.can_parse(t)
            ctx.hit("verdicts observed")
            if got is not (m.want(t, CONFIGS[0])[0] == "ok"):
                ctx.violation(f"step {step}: can_parse({t[:200]!r}) is {got!r} (history of {len(seen)} texts)")
                return
        if r.random() < 0.15:
            wae = r.random() < 0.5
            got = tuple(sut.err_key(e) for e in sut.fcsql.validate(t, return_errors=True, warnings_as_errors=wae))
            ctx.hit("validations observed")
            if first.setdefault(("v", t, wae), got) != got:
                ctx.violation(f"step {step}: validate({t[:200]!r}) lists {got!r:.300}, before {first['v', t, wae]!r:.300}")
                return
        fn = "parser"
        if c == CONFIGS[0] and r.random() < 0.3:
            fn = "module"
            try:
                kind, y = "ok", sut.fcsql.parse(t, enableSourceLocations=loc)
            except sut.fp.QueryParserException as ex:
                kind, y = "rejected", ex
        else:
            kind, y = common.attempt(p, t)
        ctx.hit("steps observed")
        if kind != w[0]:
            ctx.violation(f"step {step}: {t[:200]!r} with {c}: {kind}, expected {w[0]} (history of {len(seen)} texts)")
            return
        if kind == "ok":
            got = sut.snap(y)
            k = got.key(loc)
            quirk = "!" in t
            if k != w[1 if loc else 2] and not quirk:
                ctx.violation(f"step {step}: {t[:200]!r} with {c}, locations {loc}: tree {got!r:.300} differs from the expected one")
                return
            key = (t, tuple(c), loc)
            if not loc and any(n.loc for n in got.walk()):
                ctx.violation(f"step {step}: locations although switched off")
                return
        else:
            key = (t, tuple(c), None)
            k = (str(y), errs(p) if fn == "parser" else None)
            if fn == "module":
                k = (str(y), first.get(key, (0, None))[1])
        if fn == "parser" and kind == "ok" and p.errors:
            ctx.violation(f"step {step}: {t[:200]!r} accepted but the errors {p.errors!r:.200} are still listed")
            return
        if key in first and first[key][1] is not None and first[key] != k and k[1] is not None:
            ctx.violation(f"step {step}: {t[:200]!r}: now {k!r:.300}, before {first[key]!r:.300}")
            return
        if key in first:
            ctx.hit("repetitions compared")
        if k[1] is not None or kind == "ok":
            first[key] = k
        ctx.distinct(t, c)
        # results handed out earlier stay what they were; some are vandalised by their owner
        if kind == "ok":
            if r.random() < 0.15:
                kept.append((t, y, got.key(True)))
                if len(kept) > 40:
                    kept.pop(r.randrange(40))
            elif r.random() < 0.15:
                for n in list(sut.nodes(y)):
                    n.parent = None
                    if isinstance(n, sut.fp.Expression):
                        n.regex, n.identifier, n.qualifier = "vandalised", "vandalised", "vandalised"
                        if n.regex_flags is not None:
                            n.regex_flags.clear()
                    n.children.clear()
                ctx.hit("results vandalised")
        elif fn == "parser" and r.random() < 0.3:
            p.errors.append("junk")
            p.errors.reverse()
        if kept and r.random() < 0.05:
            t2, y2, k2 = r.choice(kept)
            ctx.hit("old results re-read")
            if sut.snap(y2).key(True) != k2:
                ctx.violation(f"step {step}: the tree handed out for {t2[:200]!r} changed since")
                return
    ctx.peak("distinct texts in one history", len(seen))
    ctx.hit("histories")
    ctx.sample(recent[:5], 1)


COLD = """
import sys, ast
sys.path.insert(0, {here!r})
from vf import sut, common
out = []
for t in ast.literal_eval(sys.stdin.read()):
    p = sut.parser(None, True)
    k, x = common.attempt(p, t)
    out.append([k, repr(sut.snap(x)) if k == "ok" else str(x), [repr(sut.err_key(e)) for e in p.errors]])
print(ascii(out))
"""


def cold(case, ctx, r):
    """the same texts first thing in a fresh process, forwards and backwards, and in this one"""
    here = os.path.dirname(os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
    pool = [t for t in texts(r, 60) if t.count("!") <= 3]

    def fresh(ts):
        pr = subprocess.run([sys.executable, "-B", "-c", COLD.format(here=here)], input=ascii(ts), capture_output=True, text=True, timeout=600)
        if pr.returncode:
            raise sut.Malformed("fresh process failed: " + pr.stderr[-500:])
        return ast.literal_eval(pr.stdout)  # not JSON: it would join neighbouring surrogates

    a = fresh(pool)
    b = fresh(pool[::-1])[::-1]
    for t, x, y in zip(pool, a, b):
        p = sut.parser(None, True)
        k, z = common.attempt(p, t)
        w = [k, repr(sut.snap(z)) if k == "ok" else str(z), [repr(sut.err_key(e)) for e in p.errors]]
        ctx.hit("compared with a fresh process")
        if w[0] == "ok":  # flag sets print in arbitrary order
            w[1], x[1], y[1] = norm(w[1]), norm(x[1]), norm(y[1])
        if not w == x == y:
            ctx.violation(f"{t[:200]!r}: fresh process {x!r:.200} / {y!r:.200}, this process {w!r:.200}")
            return


def norm(s):
    return "".join(sorted(s)) if "frozenset" in s else s
