"""C07: repetition bounds."""
from .. import common, gen, ref, sut


def proj(n):
    return [(x.kind, x.at["min"], x.at["max"]) for x in n.walk() if "min" in x.at]


BODY = ['"a"{}', "[]{}", "[b='c']{}", '("a"){}', '("a"|"b"){}', '("a" "b"){}', '"z" "a"{}', '"a"{} "z"', '"z"|[]{}', '(("a"){})', '("z" "a"{}){{7}}', '"a"{} within s']


def cases(ctx):
    r = ctx.rng
    M = 60 if ctx.thorough else 26
    for a, b in ctx.mine((a, b) for a in range(M) for b in range(M)):
        s = r.choice(["{{{a},{b}}}", "{{ {a} , {b} }}", "{{{a} ,\n{b}}}", "{{0{a},{b}}}", "{{{a},00{b}}}"]).format(a=a, b=b)
        yield {"t": r.choice(BODY).format(s), "k": "pairs"}
    for a in ctx.mine(list(range(0, 400)) + [999, 1000, 1001, 1024, 4095, 4096, 9999, 10000, 32767, 32768, 65535, 65536, 99999, 2**31 - 1, 2**31, 2**32, 2**63 - 1, 2**63, 2**64, 10**20, 10**100, 10**1000]):
        for s in (f"{{{a}}}", f"{{{a},}}", f"{{,{a}}}", f"{{{a},{a}}}", f"{{{a},{a + 1}}}", f"{{{a + 1},{a}}}", f"{{{a},0}}", f"{{0,{a}}}", f"{{1,{a}}}", f"{{{a},1}}", f"{{000{a}}}"):
            yield {"t": r.choice(BODY).format(s), "k": "values"}
    for s in ("", "+", "*", "?", " +", "\n*", "\t ?", "{}", "{,}", "{ }", "{1 2}", "{-1}", "{1,2,3}", "{1.5}", "{a}", "++", "+?", "{1}{1}", "{1}+", "{+}", "{1,2", "1}", "{\u0661}", "{\uff11}", "{1,\u00b2}"):
        for b in ctx.mine(BODY):
            yield {"t": b.format(s), "k": "forms"}
    for c in common.queries(ctx):
        yield {**c, "k": "random"}
    g = gen.Gen(r, hostile=False)
    for _ in range(ctx.share(ctx.n // 4)):
        yield {"t": gen.bad_semantics(r, g), "k": "broken"}


def evaluate(case, ctx):
    v = common.expect(case["t"], case.get("c"))
    if v.limit or not v.syntax and case["k"] in ("random", "broken"):
        return
    kind, x = common.attempt(sut.parser(common.cfg(case.get("c")), len(case["t"]) % 2 == 0), case["t"])
    ctx.hit(case["k"])
    if (kind == "ok") is not v.ok:
        ctx.violation(f"repetition in {case['t'][:300]!r}: expected {'acceptance' if v.ok else 'rejection: ' + v.why}, got {kind} ({x!s:.200})")
        return
    if not v.ok:
        ctx.hit("rejected")
        return
    want, got = proj(v.tree), proj(sut.snap(x))
    ctx.hit("repetitions observed", len(want))
    ctx.distinct(tuple(want))
    if case["k"] == "random":
        ctx.sample(case["t"][:200])
    if got != want:
        i = next((i for i, (a, b) in enumerate(zip(want, got)) if a != b), -1)
        ctx.violation(f"repetition in {case['t'][:300]!r}: expected {want[i]!r:.200}, got {got[i]!r:.200}")
    for n in sut.nodes(x):
        if isinstance(n, (sut.fp.QuerySegment, sut.fp.QueryGroup)) and (type(n.min_occurs) is not int or type(n.max_occurs) is not int):
            ctx.violation(f"bounds are not integers: {n.min_occurs!r}, {n.max_occurs!r}")
