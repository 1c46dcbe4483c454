"""C06: flags after a literal: meaning, contradiction, absence."""
import itertools

from .. import common, gen, ref, sut

F = "iIcCld"
ref_char = {"case-insensitive": "i", "case-sensitive": "I", "literal-matching": "l", "ignore-diacritics": "d"}


def cases(ctx):
    r = ctx.rng
    L = 5 if ctx.thorough else 4
    for k in range(1, L + 1):
        for fs in ctx.mine(itertools.product(F, repeat=k)):
            yield {"fl": "".join(fs), "k": "enumerated", "t": r.choice(['"a"/{}', "[b='a'/{}]", '[x:b!="" / {}]', '("a"/{} "b")*', '"x"|"a"/\n{}', '[!(b="a"/{})]+ within s'])}
    for k in (6, 7, 8, 9, 10, 16, 31, 64, 100, 257):
        for _ in range(12 if not ctx.thorough else 60):
            pool = r.choice(["i", "I", "l", "d", "ic", "IC", "id", "Id", "iIcCld", "cd", "Cd", "icd", "ICd", "icIC", "ld"])
            fs = "".join(r.choice(pool) for _ in range(k))
            if r.random() < 0.4:
                p = r.randrange(k)
                fs = fs[:p] + r.choice(F) + fs[p + 1:]
            yield {"fl": fs, "k": "long", "t": r.choice(['"a"/{}', "[b='a'/{}]"])}
    yield from common.queries(ctx)


def evaluate(case, ctx):
    if "fl" in case:
        fl = case["fl"]
        t = case["t"].format(fl)
        try:
            want = ref.flags(fl)
        except ref.SemError:
            want = None
        kind, x = common.attempt(sut.parser(None, len(t) % 2 == 0), t)
        ctx.hit("contradictory" if want is None else "consistent")
        ctx.distinct(fl)
        if (kind == "ok") is (want is None):
            ctx.violation(f"flags {fl!r} in {t!r:.200}: expected {'rejection' if want is None else sorted(want)}, got {kind} ({x!s:.200})")
            return
        if want is None:
            if not str(x):
                ctx.violation("rejected without a message")
            return
        got = [n.at["flags"] for n in common.leaves(sut.snap(x)) if n.at["regex"] in ("a", "") and n.kind == "Expression"]
        if got != [want]:
            ctx.violation(f"flags {fl!r}: expected {sorted(want)}, got {got}")
        oth = [n.at["flags"] for n in common.leaves(sut.snap(x)) if n.at["regex"] in ("b", "x")]
        if any(o is not None for o in oth):
            ctx.violation(f"flags {fl!r} in {t!r}: leaked to a literal without flags")
        return
    v, x = common.parsed(case, ctx, loc=len(case["t"]) % 2 == 0)
    if v is None:
        return
    ns = [n for n in sut.nodes(x) if isinstance(n, sut.fp.Expression)]
    want = [n.at["flags"] for n in common.leaves(v.tree) if n.kind == "Expression"]
    got = [None if n.regex_flags is None else frozenset(n.regex_flags) for n in ns]
    ctx.hit("literals without flags", want.count(None))
    ctx.hit("literals with flags", len(want) - want.count(None))
    ctx.sample(case["t"][:200])
    if [None if g is None else frozenset(str(f) for f in g) for g in got] != want:
        ctx.violation(f"flags in {case['t']!r:.300}: expected {want!r:.300}, got {got!r:.300}")
    for g in got:
        if g and {f.char for f in g} != {ref_char[str(f)] for f in g}:
            ctx.violation(f"letters of {g!r:.200}: {[f.char for f in g]}")
        if g is not None and any(not isinstance(f, sut.fp.RegexFlag) for f in g):
            ctx.violation(f"flags are not RegexFlag members: {g!r}")
