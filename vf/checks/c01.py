"""C01: exactly the language of the grammar (plus its side conditions) is accepted."""
import itertools

from .. import common, gen, ref, sut

ALPHA = ["(", ")", "[", "]", "|", "&", "!", "/", "{", "}", "+", "*", ",", "=", "!=", ":", "within", "s", "i", "foo", "1", '"a"']


def cases(ctx):
    r = ctx.rng
    L = 4 if ctx.thorough else 3
    # every token string up to length 3 (4), bare and after/before a fixed context
    for k in range(0, 4 if not ctx.thorough else 4):
        for ts in ctx.mine(itertools.product(ALPHA, repeat=k)):
            yield {"t": " ".join(ts), "k": "tokens"}
    if ctx.thorough:
        for ts in ctx.mine(itertools.product(ALPHA, repeat=4)):
            if r.random() < 0.35:
                yield {"t": " ".join(ts), "k": "tokens"}
    for pre, post in (('"a"', ""), ("(", ")"), ("[", "]"), ('[a="1"', "]"), ('"a"{', "}"), ('"a" |', ""), ('[(a="1"', ")]"), ('"a" within', "")):
        for k in (1, 2, 3):
            for ts in ctx.mine(itertools.product(ALPHA, repeat=k)):
                if k == 3 and r.random() > (0.3 if ctx.thorough else 0.02):
                    continue
                if " ".join(ts).count("!") <= 3:
                    yield {"t": f"{pre} {' '.join(ts)} {post}", "k": "context"}
    # every BMP character (sampled astral ones) as layout, inside a name, inside / escaped in a literal
    step = 1 if ctx.thorough else 3
    off = ctx.seed % step
    special = set(range(0, 0x500)) | set(range(0x2000, 0x2070)) | {0x85, 0x1680, 0x180E, 0x3000, 0xFEFF, 0xFFFE, 0xFFFF}
    for cp in ctx.mine(sorted(special | set(range(off, 0x10000, 5 * step)) | {r.randrange(0x10000, 0x110000) for _ in range(200)})):
        c = chr(cp)
        yield {"t": f'"a"{c}"b"', "k": "char"}
        yield {"t": f"'x{c}y'", "k": "char"}
        if cp in special or cp % 4 == 0:
            yield {"t": f'"x\\{c}y"', "k": "char"}
            yield {"t": f'[a{c}b="1"]', "k": "char"}
            yield {"t": f'{c}', "k": "char"}
            yield {"t": f'"a"{c}', "k": "char"}
            yield {"t": f'{c}"a"', "k": "char"}
            yield {"t": f'"a" within s{c}', "k": "char"}
            yield {"t": f'"a"{{{c}}}', "k": "char"}
            yield {"t": f'"a"/{c}', "k": "char"}
            yield {"t": f'"\\x4{c}"', "k": "char"}
    # long parts
    for n in (100, 255, 256, 257, 1000, 1023, 1024, 1025, 4096, 10000):
        if n % ctx.workers == ctx.worker or ctx.thorough:
            for t in ('"' + "a" * n + '"', "[" + "a" * n + '="x"]', '"a"' + " " * n + '"b"', '"a"{' + "0" * min(n, 4000) + "}",
                      '"' + "\\n" * n + '"', "[" + "a" * n + '-="x"]', '"' + "a" * n, '"a"/' + "i" * n):
                yield {"t": t, "k": "long"}
    # random texts: valid, nearly valid, hostile
    g = gen.Gen(r)
    for i in range(ctx.share(ctx.n)):
        if i % 3 == 0:
            yield {"t": g.query()[0], "k": "valid"}
        else:
            yield {"t": gen.hostile(r), "k": "hostile"}


def evaluate(case, ctx):
    t = case["t"]
    v = ref.analyse(t)
    if v.limit:
        return
    want = v.ok
    got = sut.fcsql.can_parse(t)
    ctx.hit(f"{case['k']}:{'accepted' if want else 'rejected'}")
    ctx.distinct(case["k"], want, tuple(k.kind for k in v.toks)[:12], len(t) if case["k"] == "long" else 0, t if case["k"] == "char" else "")
    if want and case["k"] != "valid":
        ctx.sample(t[:200])
    if got is not want:
        ctx.violation(f"can_parse({t[:300]!r}) is {got}, the grammar says {want} ({v.why or 'derivable'})")
        return
    if case["k"] in ("valid", "hostile", "long"):
        p = sut.parser(None, ctx.rng.random() < 0.5)
        kind, x = common.attempt(p, t)
        if (kind == "ok") is not want:
            ctx.violation(f"parse() {kind}, the grammar says {want} ({v.why or 'derivable'}): {x!s:.200}")
        if kind == "ok" and not isinstance(x, sut.fp.QueryNode):
            ctx.violation(f"parse() returned {x!r:.100}")
