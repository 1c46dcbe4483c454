"""C03: bracket expressions group as NOT > AND > OR with explicit parentheses."""
import itertools

from .. import common, gen, ref, sut


def cases(ctx):
    r = ctx.rng
    # the listed known finding, always looked at
    if ctx.worker == 0:
        yield {"t": '[a="1" & !b="2" | c="3" | d="4"]', "k": "known"}

    def enum():
        for k in (1, 2, 3, 4, 5) if ctx.thorough else (1, 2, 3, 4):
            for ops in itertools.product("&|", repeat=k - 1):
                for neg in itertools.product((0, 1, 2), repeat=k):
                    if sum(neg) > 3:
                        continue
                    spans = [None] + [(i, j) for i in range(k) for j in range(i, k)]
                    for sp in spans:
                        yield k, ops, neg, sp
    for k, ops, neg, sp in ctx.mine(enum()):
        out = []
        for i in range(k):
            if i:
                out.append(ops[i - 1])
            inner = sp and sp[0] == i
            if inner:
                out.append(r.choice(["(", "(", "!("]) if sum(neg) < 2 else "(")
            out.append("!" * neg[i] + f'a{i}="w{i}"')
            if sp and sp[1] == i:
                out.append(")")
        yield {"t": "[" + " ".join(out) + "]", "k": "enumerated"}
    g = gen.Gen(r, hostile=False)
    for _ in range(ctx.share(ctx.n)):
        g.nots = r.choice([0, 0, 1, 1, 2, 3, 4])
        e = g.expr(r.choice([2, 3, 4, 6, 8, 10, 14]))
        i = 0
        for n in e.walk():
            if n.kind == "Expression":
                n.at.update(raw=f'"w{i}"', dec=f"w{i}", fl=None)
                i += 1
        seg = ref.N("QuerySegment", {"min": 1, "max": 1, "qt": []}, [e])
        yield {"t": g.text(seg)[0], "k": "random"}
    for w in ctx.mine(range(2, 66)):
        xs = [f'a="w{j}"' for j in range(w)]
        for t in ("|".join(xs), "&".join(xs), "&".join(f"({x})" for x in xs), "|".join(f"!{x}" if j % 9 == 0 and j < 20 else x for j, x in enumerate(xs[:20])),
                  "(" * min(w, 30) + xs[0] + ")" * min(w, 30), "|".join("&".join(xs[j:j + 3]) for j in range(0, min(w, 45), 3))):
            yield {"t": f"[{t}]", "k": "wide"}


def evaluate(case, ctx):
    t = case["t"]
    v = ref.analyse(t)
    if not v.ok:
        return
    kind, x = common.attempt(sut.parser(None, len(t) % 2 == 0), t)
    if kind != "ok":
        ctx.violation(f"valid query rejected: {x}")
        return
    got = sut.snap(x)
    ctx.hit("trees observed")
    ctx.hit(case["k"])
    segs = [s for s in got.walk() if s.kind == "QuerySegment"]
    csts = []

    def find(c):
        for k in c.kids:
            if isinstance(k, ref.C):
                if k.rule == "expression":
                    csts.append(k)
                else:
                    find(k)
    find(v.cst)
    rsegs = [s for s in v.tree.walk() if s.kind == "QuerySegment" and s.kids[0].kind != "ExpressionWildcard" and "[" in t[s.loc[0]]]
    if len(segs) != 1 or len(csts) != 1 or len(rsegs) != 1:
        ctx.violation(f"expected one segment, got {len(segs)}")
        return
    want = ref.precedence(csts[0])
    have = ref.shape(segs[0].kids[0])
    words = [n.at["regex"] for n in segs[0].walk() if n.kind == "Expression"]
    wwords = [n.at["regex"] for n in v.tree.walk() if n.kind == "Expression"]
    ctx.distinct(want)
    if case["k"] == "random":
        ctx.sample(t[:300])
    if words != wwords:
        ctx.violation(f"operands of {t!r:.300}: expected {wwords}, got {words}")
    elif have != want:
        if have == ref.shape(rsegs[0].kids[0]) and "!" in t and t.count("|") >= 2:
            ctx.known("not-operand-swallows-or", f"{t[:200]} gives {have!r:.200} instead of {want!r:.200}")
        else:
            ctx.violation(f"{t!r:.300} gives {have!r:.400} instead of {want!r:.400}")
