"""C09: source locations."""
from .. import common, gen, ref, sut


def cases(ctx):
    r = ctx.rng
    g = gen.Gen(r)
    for _ in range(ctx.share(ctx.n)):
        c = common.rcfg(r)
        t, _ = g.query(style=r.choice(["wild", "wild", "plain", "tight"]), cfg=common.cfg(c))
        if r.random() < 0.15:
            t = r.choice(["\n" * 5, " " * 300, "\t\r\n", "\u3000"]) + t + r.choice(["", "\n", " " * 40])
        yield {"t": t, "c": c}
    for w in ctx.mine(range(1, 60)):
        yield {"t": " " * w + '"a"' + "\n" * w + '[b = "\U0001f600"]' + " " * w + '| ( "c" )' + " " * w, "c": None}
        yield {"t": '"' + "\U0001d518" * w + '" "\\U0001d518" "' + "e\u0301" * w + '" "x"/i within s', "c": ["text", "Eq", "NFKD"]}


def evaluate(case, ctx):
    v, x = common.parsed(case, ctx)
    if v is None:
        return
    t = case["t"]
    got = sut.snap(x)
    ctx.distinct(common.features(got), t.count("\n") > 0, len(t) > 60)
    if len(t) < 200:
        ctx.sample(t)
    want = [(n.kind, n.loc) for n in v.tree.walk()]
    have = [(n.kind, n.loc) for n in got.walk()]
    quirk = "!" in t
    ctx.hit("locations observed", len(have))
    if quirk and [k for k, _ in want] != [k for k, _ in have]:
        ctx.hit("structure differs (other property)")
    elif want != have:
        i = next((i for i, (a, b) in enumerate(zip(want, have)) if a != b), min(len(want), len(have)))
        ctx.violation(f"{t!r:.300}: node {i}: expected {want[i:i+1]}, got {have[i:i+1]}")
        return
    # laws that need no reference
    for n in sut.nodes(x):
        loc = n.location
        if not isinstance(loc, sut.fp.SourceLocation) or not 0 <= loc.start < loc.stop <= len(t):
            ctx.violation(f"{t!r:.300}: bad location {loc!r} of {type(n).__name__}")
            return
        last = None
        for k in n.children:
            if k.location is None or k.location.start < loc.start or k.location.stop > loc.stop:
                ctx.violation(f"{t!r:.300}: child location {k.location} outside its parent's {loc}")
                return
            if last is not None and k.location.start < last:
                ctx.violation(f"{t!r:.300}: siblings overlap or are out of order at {k.location}")
                return
            last = k.location.stop
    r = common.derive(t, ctx.seed)
    parts = [n for n in sut.nodes(x) if type(n).__name__ in ("QuerySegment", "QueryGroup", "QuerySequence", "QueryDisjunction")]
    for n in r.sample(parts, min(3, len(parts))):
        s = t[n.location.start:n.location.stop]
        kind, y = common.attempt(sut.parser(common.cfg(case["c"]), False), s)
        if kind != "ok":
            ctx.violation(f"the text {s!r:.200} located for {type(n).__name__} is not a query")
            return
        a, b = _strip(sut.snap(y)), _strip(sut.snap(n))
        while a.kind != b.kind and a.kind == "QuerySequence" and len(a.kids) == 1:
            a = a.kids[0]
        while a.kind != b.kind and b.kind == "QuerySequence" and len(b.kids) == 1:
            b = b.kids[0]
        ctx.hit("slices re-parsed")
        d = ref.diff(b, a, loc=False)
        if d:
            ctx.violation(f"the text {s!r:.200} located for {type(n).__name__} parses to something else: {d}")
            return
    kind, z = common.attempt(sut.parser(common.cfg(case["c"]), False), t)
    if kind != "ok":
        ctx.violation("rejected without locations only")
        return
    off = sut.snap(z)
    if any(n.loc is not None for n in off.walk()):
        ctx.violation("locations present although switched off")
    d = ref.diff(got, off, loc=False)
    if d:
        ctx.violation(f"{t!r:.300}: the tree changes when locations are switched off: {d}")


def _strip(n):
    return n
