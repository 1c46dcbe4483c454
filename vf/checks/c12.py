"""C12: the details of a syntax error point at the right place."""
from .. import common, gen, ref, sut, words


def cases(ctx):
    r = ctx.rng
    g = gen.Gen(r)
    for i in range(ctx.share(ctx.n)):
        x = i % 8
        if x == 0:
            t = gen.bad_semantics(r, g)
        elif x == 1:
            # a valid query with something wrong far behind
            t = gen.Gen(r, hostile=False).query(r.choice([2, 8, 20]))[0] + r.choice([" ", "\n", "\n\n  "]) + r.choice(["#", ")", "]", "|", '"', "within", "within x", "{2}}", "=", "'b", "\u00e4", "!"])
        elif x == 2:
            q = gen.Gen(r, hostile=False).query(style="wild")[0]
            p = r.randrange(len(q) + 1)
            t = q[:p] + r.choice("#@;<>~%$.-_\u00e4\u4e2d\U0001f600\x00\\^`") + q[p:]
        elif x == 3 and i % 16 < 8:
            # something wrong on a later line, or far to the right
            n = words.INTS and r.random() < 0.3 and words.size(r, 400) or r.randrange(1, 14)
            parts = [r.choice(['"a"', "[]", "'b'/i", '[a="b"]', '("a" "b")', "", '"c"{2}']) for _ in range(n)]
            parts[-1] = parts[-1] or '"z"'
            k = r.choice([n, n, r.randrange(n + 1)])
            bad = r.choice(gen.VOCAB + [")", "]", "}", "|", "within", "a", "7", ",", "/", "=", ":"])
            sep = r.choice(["\n", "\n", "\n ", " ", "\r\n"])
            t = sep.join(parts[:k]) + r.choice(["", " ", sep, sep]) + bad + sep + sep.join(parts[k:])
        else:
            t = gen.hostile(r)
        if gen.nots_ok(t):
            yield {"t": t}
    for t in ctx.mine(["", " ", "\n", "\u00a0", "#", "##", "\n#", '"a"\n#', '"a"\n\n  )', '"a" within\n', "(\n", '[\n', "\n\n\n\n]", '"a\n', "'", '"\\q"', '"a" "\\x4"', "\U0001f600", '\U0001f600"a"', '"\U0001f600" #', "a", "text", '[a]', '"a"{', '"a"/', '"a"/x', common.AND_BLAMED]):
        yield {"t": t}


def evaluate(case, ctx):
    fp = sut.fp
    t = case["t"]
    v = ref.analyse(t)
    if v.limit:
        return
    p = fp.QueryParser()
    kind, ex = common.attempt(p, t)
    errs = p.errors
    if kind == "ok":
        ctx.hit("accepted")
        if len(errs):
            ctx.violation(f"{t[:200]!r} accepted, but errors are listed: {errs!r:.200}")
        return
    if v.syntax:
        ctx.hit("rejected for its meaning")
        if not str(ex):
            ctx.violation("no message")
        return
    ctx.hit("rejected for its syntax")
    if not isinstance(errs, list) or not errs:
        ctx.violation(f"{t[:200]!r}: no error details")
        return
    if errs[0].message not in str(ex):
        ctx.violation(f"{t[:200]!r}: exception {str(ex)[:150]!r} does not carry the first detail {errs[0].message[:150]!r}")
    toks, lexes = [], []
    for e in errs:
        ctx.hit("details observed")
        if not isinstance(e, fp.ErrorDetail) or e.type != "syntax-error" or not isinstance(e.message, str) or not e.message:
            ctx.violation(f"{t[:200]!r}: odd detail {e!r:.200}")
            return
        pos = e.position
        if isinstance(pos, fp.SourceLocation):
            a, b = pos.start, pos.stop
            toks.append((a, b))
            if not 0 <= a <= b <= len(t):
                ctx.violation(f"{t[:200]!r} ({len(t)} characters): position {a}:{b} outside")
                return
            if e.fragment != t[:b]:
                ctx.violation(f"{t[:200]!r}: fragment {e.fragment[:200]!r} does not show the text up to {b}")
        elif isinstance(pos, int) and not isinstance(pos, bool):
            lexes.append(pos)
            if not 0 <= pos <= len(t):
                ctx.violation(f"{t[:200]!r}: position {pos} outside")
                return
            if e.fragment is not None and e.fragment not in t:
                ctx.violation(f"{t[:200]!r}: fragment {e.fragment[:200]!r} is not part of the text")
        elif pos is None and not t:
            pass
        else:
            ctx.violation(f"{t[:200]!r}: detail without position: {e!r:.300}")
            return
    seen = sorted(set(lexes))
    ctx.distinct(tuple(lexes[:4]), tuple(toks[:2]), errs[0].message[:40])
    ctx.sample({"text": t[:120], "details": [[e.message[:60], str(e.position)] for e in errs[:2]]})
    # unusable characters: reported in order, at the offsets the grammar implies; a prefix of them is enough
    # when the parser gives up on the text before reading all of it
    if seen != v.lexerrs[: len(seen)] or lexes != seen:
        ctx.violation(f"{t[:200]!r}: unusable characters reported at {lexes[:10]}, they are at {v.lexerrs[:10]}")
        return
    if v.lexerrs:
        ctx.hit("texts with unusable characters")
    if v.cst is None:
        far = v.toks[v.far] if v.far < len(v.toks) else None
        want = (far.start, far.stop) if far else (len(t), len(t))
        if not toks and t:
            ctx.violation(f"{t[:200]!r}: the place where it stops being a query ({want}) is not reported")
        elif toks and toks[0] != want and common.and_blamed(v, toks[0][0]) and errs[0].message.startswith(("mismatched input '&'", "extraneous input '&'")):
            ctx.known("and-blamed", f"{t[:200]!r}: first reported place {toks[0]}, it stops being a query at {want}")
        elif toks and toks[0] != want:
            ctx.violation(f"{t[:200]!r}: first reported place {toks[0]}, it stops being a query at {want}")
        ctx.hit("places compared")
    elif toks:
        ctx.violation(f"{t[:200]!r}: only single characters are unusable, but the place {toks[0]} is reported")
    if v.cst is not None and not lexes:
        ctx.violation(f"{t[:200]!r}: unusable characters not reported")
    d = sut.fcsql.validate(t, return_errors=True)
    if [sut.err_key(a) for a in d] != [sut.err_key(a) for a in errs]:
        ctx.violation(f"{t[:200]!r}: validate() reports {d!r:.200}, the parser {errs!r:.200}")
