"""C02: query level structure (segments, sequences, groups, alternatives) is the written one."""
from .. import common, gen, ref, sut

QK = {"QueryDisjunction", "QuerySequence", "QueryGroup", "QuerySegment", "QueryWithWithin"}


def outline(n):
    if n.kind == "QuerySegment":
        return ("Segment", tuple(x.at.get("regex", "[]") for x in common.leaves(n)))
    if n.kind == "QueryWithWithin":
        return outline(n.kids[0])
    return (n.kind, tuple(outline(k) for k in n.kids))


class Labelled(gen.Gen):
    """every literal is unique, so dropped, doubled, swapped or shared parts are visible"""
    ctr = 0

    def literal(self):
        if self.r.random() < 0.1:
            return super().literal()
        self.ctr += 1
        return f'"w{self.ctr}"', f"w{self.ctr}"


def cases(ctx):
    r = ctx.rng
    import itertools

    def shapes():
        for k in (1, 2, 3, 4) if ctx.thorough else (1, 2, 3):
            yield from itertools.islice((s for s in small_limited(k)), 6000)
    for s in ctx.mine(shapes()):
        i = 0
        out = []
        for c in s:
            if c == "S":
                out.append(r.choice([f'"w{i}"', f'[a="w{i}"]', f'[a="w{i}" & b="v{i}"]', f"'w{i}'+"]))
                i += 1
            else:
                out.append(c)
        yield {"t": "".join(out), "k": "enumerated"}
        if i > 1:
            out = [r.choice(['"w"', '"w"', '"v"', '[a="w"]']) if c == "S" else c for c in s]
            yield {"t": "".join(out), "k": "equal"}
    g = Labelled(r)
    for i in range(ctx.share(ctx.n)):
        g.ctr = 0
        b = r.choice([2, 3, 4, 6, 8, 12, 20, 40])
        yield {"t": g.query(b)[0], "k": "random"}
    # widths around every small number, all kinds of composition
    for w in ctx.mine(range(2, 72 if not ctx.thorough else 150)):
        ws = [f'"w{j}"' for j in range(w)]
        yield {"t": " ".join(ws), "k": "wide"}
        yield {"t": "|".join(ws), "k": "wide"}
        yield {"t": "(" + "|".join(ws) + ")", "k": "wide"}
        yield {"t": "(" + " ".join(ws) + ")+", "k": "wide"}
        yield {"t": "|".join(f"({x})" for x in ws), "k": "wide"}
        yield {"t": " ".join(f"({x}|{x[:-1]}x\")" for x in ws), "k": "wide"}
        # equal parts are still separate parts
        eq = [f'"w{j % r.choice([1, 2, 3])}"' for j in range(w)]
        yield {"t": " ".join(eq), "k": "equal"}
        yield {"t": "|".join(eq), "k": "equal"}
        yield {"t": "|".join(f"({x} {x})" for x in eq), "k": "equal"}
        yield {"t": "|".join(f"{x} {x}" for x in eq), "k": "equal"}
        yield {"t": " ".join(f"({x}|{x})" for x in eq), "k": "equal"}
        yield {"t": " ".join(ws[: w // 2]) + "|" + " ".join(ws[w // 2:]), "k": "wide"}
        # runs of one kind of segment behind, before and between others
        for s in ["[]", '"w"', "[]{1}", '[a="w"]', '("w")', '("v" | "w")', "([])"]:
            yield {"t": " ".join(r.choice([[ws[0]] + [s] * w, [s] * w, [s] * w + [ws[0]], ws[:2] + [s] * w + ws[-1:], ["("] + [s] * w + [")", ws[0]]])), "k": "runs"}
            yield {"t": "|".join(r.choice([[ws[0]] + [s] * w, [s] * w, [s] * w + [ws[0]], ws[:1] + [s] * w + ws[-1:]])), "k": "runs"}
        if w <= 33:
            yield {"t": "(" * w + '"d"' + ")" * w, "k": "deep"}
            yield {"t": "(" * w + '"d" "e"' + ")?" * w, "k": "deep"}
            yield {"t": '("a"|' * w + '"d"' + ")" * w, "k": "deep"}
            yield {"t": "(" * w + '"d"' + '|"z")' * w, "k": "deep"}


def small_limited(k):
    """group nesting bounded to 2 (the recursion in `small` would not end)"""
    def build(k, d):
        # returns dict kind -> list
        key = (k, d)
        if key in memo:
            return memo[key]
        seqs, alts = [], []
        for f in range(1, k + 1):
            firsts = ["S"] if f == 1 else []
            if d > 0:
                s2, a2 = build(f, d - 1)
                firsts = firsts + [f"({x})" for x in s2 + a2]
            for a in firsts:
                if f == k:
                    seqs.append(a)
                else:
                    seqs += [a + " " + b for b in build(k - f, d)[0]]
        for f in range(1, k):
            for a in [x for x in build(f, d)[0]]:
                s2, a2 = build(k - f, d)
                alts += [a + " | " + b for b in s2 + a2]
        memo[key] = (seqs, alts)
        return memo[key]

    memo = {}
    d = 2 if k <= 3 else 1
    s, a = build(k, d)
    return s + a


def evaluate(case, ctx):
    v, x = common.parsed(case, ctx, loc=len(case["t"]) % 2 == 0)
    if v is None:
        return
    got = outline(sut.snap(x))
    want = outline(v.tree)
    ctx.distinct(common.features(v.tree))
    ctx.hit(case["k"])
    ctx.peak("fan-out", max(len(n.kids) for n in v.tree.walk()))
    if case["k"] == "random":
        ctx.sample(case["t"][:300])
    if got != want:
        ctx.violation(f"structure of {case['t'][:300]!r}: expected {want!r:.600}, got {got!r:.600}")
