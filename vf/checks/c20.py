"""C20: text form of trees."""
from .. import common, gen, hand, ref, sut

fp = sut.fp


def cases(ctx):
    r = ctx.rng
    for i, c in enumerate(common.queries(ctx)):
        yield {**c, "loc": r.random() < 0.5, "k": "parsed"}
        if i % 3 == 0:
            yield {"seed": r.randrange(2**48), "k": "hand"}
    for fl in ctx.mine(["i", "I", "c", "C", "l", "d", "id", "di", "Id", "dI", "cd", "dC", "ll", "dd", "iic"]):
        for q in ("", "x:", "text:"):
            for op in ("=", "!="):
                yield {"t": f'[{q}lemma{op}"a\tb\\nc\rd"/{fl}]', "c": None, "loc": True, "k": "parsed"}
    for a, b in ctx.mine([(a, b) for a in (0, 1, 2, 10, 100) for b in (0, 1, 2, 10, 100, None) if b is None or a <= b]):
        s = f"{{{a},{'' if b is None else b}}}"
        yield {"t": f'"a"{s} ("b"{s} | []{s}){s}', "c": None, "loc": False, "k": "parsed"}
    for w in ctx.mine([40, 99, 100, 101, 255, 256, 257, 999, 1000, 1001, 1500, 3000, 5000]):
        for k in ("QuerySequence", "QueryDisjunction", "ExpressionAnd", "ExpressionOr"):
            yield {"wide": w, "kind": k, "k": "wide"}
        yield {"t": '"' + "ab " * w + '"', "c": None, "loc": True, "k": "parsed"}
        yield {"t": " ".join(['"%d"' % i for i in range(w)]), "c": None, "loc": True, "k": "parsed"}
        yield {"t": "[" + "a-b" * w + ':' + "x" * w + '!="c"/id]{' + "1" * min(w, 1000) + "}", "c": None, "loc": True, "k": "parsed"}


def skel(s):
    return s


def evaluate(case, ctx):
    if case["k"] == "parsed":
        v = common.expect(case["t"], case["c"])
        kind, x = common.attempt(sut.parser(common.cfg(case["c"]), case["loc"]), case["t"])
        if kind != "ok" or not v.ok:
            return
        what = case["t"][:200]
        ctx.sample([case["t"][:120], str(x)[:200]])
        tree = sut.snap(x)
    elif case["k"] == "wide":
        x = sut.CLS[case["kind"]]([fp.Expression(None, "text", fp.Operator.EQUALS, f"w{i}", None) for i in range(case["wide"])])
        what = f"hand-made {case['kind']} with {case['wide']} parts"
        tree = sut.snap(x)
    else:
        x = hand.tree(common.derive(case["seed"]), 3)
        what = "hand-made tree"
        tree = sut.snap(x)
    ctx.hit("k:" + case["k"])
    st = [(x, tree)]
    while st:
        n, w = st.pop()
        s = str(n)
        ctx.hit("nodes rendered")
        want = render(w)
        if s != want:
            if len(n.children) and any(str(k) != render(kw) for k, kw in zip(n.children, w.kids)):
                st = list(zip(n.children, w.kids))  # report the innermost one
                continue
            ctx.violation(f"{what!r}: {w.kind} renders as {s[:300]!r}, expected {want[:300]!r}")
            return
        if s != n.__str__() or s != f"{n}" or s != str(n):
            ctx.violation(f"{what!r}: rendering is not repeatable")
            return
        st += zip(n.children, w.kids)
    ctx.distinct(str(x))
    for e in (fp.QueryNodeType, fp.Operator, fp.RegexFlag, fp.SimpleWithinScope):
        for m in e:
            if str(m) != m.value or f"{m}" != m.value:
                ctx.violation(f"{m!r} prints as {m}")
    if x.location is not None and str(x.location) != f"{x.location.start}:{x.location.stop}":
        ctx.violation(f"location prints as {x.location}")


def render(n):
    """like ref.render, also for shapes only hand-made trees have"""
    return ref.render(n)
