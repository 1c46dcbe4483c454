"""C08: search context (within)."""
from .. import common, gen, ref, sut


def cases(ctx):
    r = ctx.rng
    g = gen.Gen(r)
    bodies = ['"a"', "[]", '[text="b"]', '"a" "b"', '"a" | "b"', '("a" "b"){2}', "('c')", '[s:p="x"/i]', '[within="within"]', '"within s"', '"a"/i', '[t="x"]?']
    for b, s in ctx.mine((b, s) for b in bodies for s in gen.SCOPE_WORDS):
        for lay in (" within {}", "within {}", "\nwithin\t{}\n", "  within\u00a0{}  "):
            yield {"t": b + lay.format(s), "k": "scopes"}
    # words that are not scopes, misplaced or doubled clauses
    bad = ["", "S", "Sentence", "SENTENCE", "sentences", "sent", "x", "texts", "Text", "tex", "sess", "sessions", "turns", "utt", "para", "paragraphs", "document",
           "within", "i", "word", "lemma", '"s"', "[s]", "s s", "s within s", "s,t", "s|t", "(s)", "s+", "s{1}", "s/i", "1", "U", "P", "T", "v", "w", "ss", "st", "s1", "s-a",
           "speech", "phrase", "clause", "session1", "Session", "TURN", "none", "*", "=", "s 'a'"]
    for b, s in ctx.mine((b, s) for b in bodies for s in bad):
        yield {"t": f"{b} within {s}", "k": "bad"}
    for w in ctx.mine(["Within", "WITHIN", "withi", "withins", "with in", "in", "inside", "within:", "within=", "&within", "| within", "!within", "containing"]):
        for s in gen.SCOPE_WORDS:
            yield {"t": f'"a" {w} {s}', "k": "bad"}
            yield {"t": f'("a" {w} {s})', "k": "bad"}
            yield {"t": f'[a="b" {w} {s}]', "k": "bad"}
    for t in ctx.mine(['("a" within s)', '"a" within s | "b"', '"a" within s "b"', 'within s', 'within', '"a" within s)', '("a" within s) within t', '[a="b" within s]']):
        yield {"t": t, "k": "bad"}
    for _ in range(ctx.share(ctx.n)):
        c = common.rcfg(r)
        while True:
            t = g.query(cfg=common.cfg(c))[0]
            v = common.expect(t, c)
            if v.ok and v.tree.kind != "QueryWithWithin":
                break
        sp = "".join(r.choice(ref.WS) for _ in range(r.choice([1, 1, 2, 5])))
        sp2 = "".join(r.choice(ref.WS) for _ in range(r.choice([1, 1, 2, 5])))
        end = r.choice(["", "", " ", "\n\n"])
        yield {"t": t + sp + "within" + sp2 + r.choice(gen.SCOPE_WORDS) + end, "base": t, "c": c, "k": "random"}


def evaluate(case, ctx):
    fp = sut.fp
    v = common.expect(case["t"], case.get("c"))
    p = sut.parser(common.cfg(case.get("c")), len(case["t"]) % 2 == 0)
    kind, x = common.attempt(p, case["t"])
    ctx.hit(case["k"])
    if (kind == "ok") is not v.ok:
        ctx.violation(f"{case['t'][:300]!r}: expected {'acceptance' if v.ok else 'rejection'}, got {kind} ({x!s:.200})")
        return
    if not v.ok:
        ctx.hit("rejected")
        return
    ww = [n for n in sut.nodes(x) if isinstance(n, (fp.QueryWithWithin, fp.SimpleWithin))]
    if v.tree.kind != "QueryWithWithin":
        if ww:
            ctx.violation(f"{case['t'][:300]!r}: a search context appears that was not written")
        return
    scope = v.tree.kids[1].at["scope"]
    ctx.distinct(scope, common.features(v.tree))
    ctx.hit("scope:" + scope)
    if case["k"] == "random":
        ctx.sample(case["t"][:200])
    if len(ww) != 2 or ww[0] is not x or not isinstance(x, fp.QueryWithWithin) or len(x.children) != 2:
        ctx.violation(f"{case['t'][:300]!r}: expected one search context around the whole query, got {x!s:.300}")
        return
    q, w = x.get_query(), x.get_within()
    if q is not x.children[0] or w is not x.children[1] or w is not ww[1]:
        ctx.violation("query or context part is not the written one")
        return
    if str(w.scope) != scope or not isinstance(w.scope, fp.SimpleWithinScope):
        ctx.violation(f"{case['t'][-80:]!r}: expected scope {scope}, got {w.scope!r}")
    if "base" in case:
        kind, b = common.attempt(p, case["base"])
        if kind != "ok":
            ctx.violation(f"the query without its context is rejected: {b}")
        else:
            d = ref.diff(sut.snap(b), sut.snap(q))
            if d:
                ctx.violation(f"{case['t'][:300]!r}: the query part differs from the query on its own: {d}")
