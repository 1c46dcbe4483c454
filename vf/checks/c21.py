"""C21: which conditions the FCS 2.2 validator objects to."""
import re

from .. import common, gen, hand, ref, sut, vconf

fv, fp = sut.fv, sut.fp


def cases(ctx):
    r = ctx.rng
    for _ in range(ctx.share(ctx.n)):
        yield {"seed": r.randrange(2**48), "k": "tree"}
    # every (name, qualifier, value, flags) combination under systematic settings
    names = ["text", "lemma", "pos", "orth", "norm", "phonetic", "word", "x-a", "x-", "x", "foo", "Text", "POS", "lemm", "texts", "", "Word", "words", "xx-a", "X-a"]
    confs = [{"ids": None, "quals": None}, {"ids": [], "quals": []}, {"ids": ["text", "pos"], "quals": None}, {"ids": ["foo"], "quals": [["foo", ["a"]], ["foo", ["b"]]]},
             {"ids": None, "quals": [["pos", ["ud", "a"]], ["text", None], ["lemma", []]]}, {"ids": ["word", "x-a"], "quals": [["word", ["a"]]]}]
    for i, c in ctx.mine((i, c) for i in names for c in confs):
        yield {"name": i, "conf": c, "k": "grid"}
    # the regex heuristic, character by character
    for b in ctx.mine(range(0, 0x600, 32)):
        yield {"block": b, "k": "chars"}
    for _ in range(20):
        yield {"block": r.randrange(0x600, 0x110000), "k": "chars"}


SPECIAL = set("\\^$.|?*+()[]{}-&~#\t\n\r\v\f")


def likely(s):
    return any(c in SPECIAL for c in s)


def issues(n, conf, kind):
    """reference: ordered list of (severity, node) for one tree"""
    w = sut.snap(n)
    quals = conf["quals"]
    return [(s, x, rule) for s, x, rule in ref.validate_spec(w, conf["ids"], quals)]


def judge_tree(ctx, tree, conf, what):
    v = fv.FCSQLValidator(raise_at_first_violation=False, **vconf.kwargs(conf))
    ok = v.validate(tree)
    want = issues(tree, conf, None)
    we = [(x.at["identifier"], rule, x.loc) for s, x, rule in want if s == "error"]
    ww = [(x.at["identifier"], rule, x.loc) for s, x, rule in want if s == "warning"]
    ctx.hit("conditions judged", sum(1 for n in sut.nodes(tree) if isinstance(n, fp.Expression)))
    for _, rule, _ in we + ww:
        ctx.hit("rule:" + rule)

    def loc(e):
        return None if e.position is None else (e.position.start, e.position.stop)
    he, hw = [loc(e) for e in v.errors], [loc(e) for e in v.warnings]
    if he != [x[2] for x in we] or hw != [x[2] for x in ww]:
        ctx.violation(f"{what} with {conf}: expected errors {we!r:.250} and warnings {ww!r:.250}, got {[(e.message[:60], str(e.position)) for e in v.errors]!r:.250} and {[(e.message[:60], str(e.position)) for e in v.warnings]!r:.250}")
        return False
    if ok is not (not we):
        ctx.violation(f"{what} with {conf}: verdict {ok!r} with errors {we!r:.200}")
        return False
    strict = fv.FCSQLValidator(raise_at_first_violation=False, warnings_as_errors=True, **vconf.kwargs(conf))
    if strict.validate(tree) is not (not we and not ww):
        ctx.violation(f"{what} with {conf}: strict verdict wrong (errors {we!r:.150}, warnings {ww!r:.150})")
        return False
    if fv.FCSQLValidator(**vconf.kwargs(conf)).is_valid(tree) is not (not we):
        ctx.violation(f"{what} with {conf}: is_valid() wrong")
        return False
    if ref.validate_spec and conf == {"ids": None, "quals": None}:
        if fv.VALIDATORS["2.2"](raise_at_first_violation=False).validate(tree) is not (not we):
            ctx.violation(f"{what}: verdict of the registered 2.2 validator differs")
            return False
    return True


def evaluate(case, ctx):
    k = case["k"]
    if k == "tree":
        r = common.derive(case["seed"])
        t, tree = vconf.tree(r)
        conf = vconf.conf(r)
        ctx.distinct(str(tree), repr(conf))
        if t:
            ctx.sample([t[:150], conf])
        judge_tree(ctx, tree, conf, f"{t if t else str(tree)!r:.250}")
    elif k == "grid":
        i, conf = case["name"], case["conf"]
        for q in (None, "a", "b", "ud", "pos", ""):
            for val in vconf.VALUES:
                for fl in (None, {fp.RegexFlag.CASE_INSENSITIVE}, {fp.RegexFlag.LITERAL_MATCHING}):
                    if fl and i != "pos":
                        continue
                    n = fp.Expression(q, i, fp.Operator.EQUALS, val, fl)
                    n.location = fp.SourceLocation(1, 2)
                    if not judge_tree(ctx, n, conf, f"condition {n!s}"):
                        return
        ctx.distinct(i, repr(conf))
    else:
        for cp in range(case["block"], min(case["block"] + 32, 0x110000)):
            for s in (chr(cp), "a" + chr(cp), chr(cp) + "B", f"NO{chr(cp)}UN", " " + chr(cp) + " "):
                got = fv.is_likely_a_regex(s)
                ctx.hit("strings classified")
                want = likely(s)
                if got is not want:
                    ctx.violation(f"is_likely_a_regex({s!r}) is {got}")
                    return
        ctx.distinct(case["block"])
