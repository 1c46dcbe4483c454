"""C04: attribute, qualifier and operator of every condition, incl. implicit ones and the wildcard."""
from .. import common, gen, ref, sut


def proj(n):
    return [(x.kind, x.at.get("qualifier"), x.at.get("identifier"), x.at.get("operator")) for x in common.leaves(n)]


NAMES = gen.LAYERS + gen.KEYWORDS + gen.OTHERID


def cases(ctx):
    r = ctx.rng
    # every (qualifier, name) pair of the vocabulary, with both operators and odd layout
    for q, i in ctx.mine((q, i) for q in [None] + NAMES for i in NAMES):
        op = r.choice(["=", "!=", " = ", "\n!=\t"])
        a = i if q is None else q + r.choice([":", " : ", ":\n"]) + i
        yield {"t": f'[{a}{op}"v"]', "k": "pairs", "c": common.rcfg(r)}
    al = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ"
    for L in ctx.mine(list(range(1, 140)) + [200, 255, 256, 257, 511, 512, 1000, 1024, 5000]):
        for _ in range(4):
            n = r.choice(al) + ("".join(r.choice(al + "0123456789-") for _ in range(L - 2)) + r.choice(al + "09") if L > 1 else "")
            yield {"t": f'[{n}="v" & {n}:x!="w" | y:{n}="z"]', "k": "lengths"}
    for a in ctx.mine(al):
        for b in al + "0123456789":
            yield {"t": f'[{a}{b}="v" & {b if b.isalpha() else "q"}:{a}!="w"]', "k": "letters"}
    ids = ["text", "lemma", "word", "x-own", "pos", "s", "within", "i", "T", "default-id", "with space", "\u00e4\u00df", "", "0", "None", "text ", "A" * 300]
    for ident, op, form in ctx.mine((a, b, c) for a in ids for b in ("Eq", "Ne") for c in ("NFC", None, "NFKD")):
        for t in ('"a"', "'a'/i", '"a" "b" | "c"', '("a"{2} [] [b="x"])+ within s', '["a"]'.replace('["a"]', '[c!="x"] "y"')):
            yield {"t": t, "k": "defaults", "c": [ident, op, form]}
    yield from common.queries(ctx)


def evaluate(case, ctx):
    v, x = common.parsed(case, ctx, loc=len(case["t"]) % 2 == 0)
    if v is None:
        return
    want, got = proj(v.tree), proj(sut.snap(x))
    for w in want:
        ctx.distinct(*w)
    ctx.hit("conditions observed", len(want))
    ctx.hit("k:" + case.get("k", "random"))
    if case.get("k") is None:
        ctx.sample(case["t"][:300])
    if got != want:
        i = next((i for i, (a, b) in enumerate(zip(want, got)) if a != b), min(len(want), len(got)))
        ctx.violation(f"{case['t'][:300]!r} settings {case.get('c')}: condition {i}: expected {want[i:i+1]!r:.300}, got {got[i:i+1]!r:.300}")
