"""C18: questions a node answers about itself."""
from .. import common, gen, hand, ref, sut

fp = sut.fp


def cases(ctx):
    r = ctx.rng
    for i, c in enumerate(common.queries(ctx)):
        yield {**c, "seed": r.randrange(2**32), "k": "parsed"}
        if i % 2 == 0:
            yield {"seed": r.randrange(2**48), "k": "hand"}


NAMES = ["text", "Text", "lemma", "pos", "word", "x-own", "s", "i", "", " ", "tex", "text "]


def ask(ctx, n, name, arg, want):
    got = getattr(n, name)(*arg)
    ctx.hit("answers observed")
    ctx.distinct(name, repr(want), type(n).__name__, repr(arg)[:40])
    if got is not want:
        ctx.violation(f"{name}({', '.join(map(repr, arg))}) of {n!s:.150} is {got!r}, expected {want}")
        return False
    return True


def check(ctx, n, r, kind):
    for t in fp.QueryNodeType:
        if not ask(ctx, n, "has_node_type", (t,), str(t) == ref.node_type(kind)):
            return False
    for s in ("", "Query", "Expr", kind.upper(), kind.lower(), kind + "s", kind[:-1], "Eq"):
        if not ask(ctx, n, "has_node_type", (s,), False):
            return False
    if not isinstance(n.node_type, fp.QueryNodeType) or n.node_type.value != ref.node_type(kind) or str(n.node_type) != ref.node_type(kind):
        ctx.violation(f"node type of a {kind} is {n.node_type!r}")
        return False
    none = ["has_node_type"]
    if kind == "Expression":
        none += ["has_layer_identifier", "has_layer_qualifier", "has_operator", "has_regex_flag"]
        fl = set() if n.regex_flags is None else {str(f) for f in n.regex_flags}
        for s in NAMES + [n.identifier, n.identifier + "x", n.identifier.upper(), n.identifier[:-1]]:
            if not ask(ctx, n, "has_layer_identifier", (s,), s == n.identifier):
                return False
        q = n.qualifier
        for s in NAMES + ([q, q + "x", q.swapcase(), q[1:]] if q else []) + [n.identifier]:
            if not ask(ctx, n, "has_layer_qualifier", (s,), bool(q) and s == q):
                return False
        for o in fp.Operator:
            if not ask(ctx, n, "has_operator", (o,), str(o) == str(n.operator)):
                return False
        # words that are no operator, flag or node type at all
        for s in ("", "E", "N", "e", "eq", "EQ", "ne", "NE", "Exists", "Nearly", "=", "!=", " ", "Eq ", "EQUALS", "NOT_EQUALS"):
            if not ask(ctx, n, "has_operator", (s,), False):
                return False
        for s in ("", "i", "I", "c", "l", "d", "case", "sensitive", "case-", "CASE_SENSITIVE", "literal", "Eq"):
            if not ask(ctx, n, "has_regex_flag", (s,), False):
                return False
        for f in fp.RegexFlag:
            if not ask(ctx, n, "has_regex_flag", (f,), str(f) in fl):
                return False
        if not ask(ctx, n, "is_layer_qualifier_empty", (), not q) or not ask(ctx, n, "is_regex_flags_empty", (), not fl):
            return False
    for m in none:
        try:
            x = getattr(n, m)(None)
        except TypeError:
            ctx.hit("missing arguments refused")
            continue
        ctx.violation(f"{m}(None) of a {kind} gives {x!r} instead of a TypeError")
        return False
    return True


def evaluate(case, ctx):
    r = common.derive(case["seed"])
    if case["k"] == "parsed":
        v = common.expect(case["t"], case["c"])
        kind, x = common.attempt(sut.parser(common.cfg(case["c"]), r.random() < 0.5), case["t"])
        if kind != "ok" or not v.ok:
            return
        ns = list(sut.nodes(x))
        ctx.sample(case["t"][:150])
        # the answers refer to the query text, not only to the attributes of the node
        want = [n for n in v.tree.walk() if n.kind == "Expression"]
        have = [n for n in ns if isinstance(n, fp.Expression)]
        if len(want) == len(have):
            for w, n in zip(want, have):
                fl = w.at["flags"] or ()
                ok = (n.has_layer_identifier(w.at["identifier"]) and n.has_operator(sut.OPS[w.at["operator"]]) and n.is_layer_qualifier_empty() is (w.at["qualifier"] is None)
                      and (w.at["qualifier"] is None or n.has_layer_qualifier(w.at["qualifier"])) and n.is_regex_flags_empty() is (not fl)
                      and all(n.has_regex_flag(f) is (f.value in fl) for f in fp.RegexFlag))
                ctx.hit("conditions compared with the text")
                if not ok:
                    ctx.violation(f"{case['t'][:200]!r}: the answers of {n!s:.150} contradict the query text ({w!r:.200})")
                    return
        for n in ns[:12]:
            if not check(ctx, n, r, sut.kind_of(n)):
                return
        ctx.hit("parsed trees")
    else:
        x = hand.tree(r, 2)
        for n in list(sut.nodes(x))[:12]:
            if not check(ctx, n, r, sut.kind_of(n)):
                return
        q = r.choice([None, "", " ", "\t\n", "\u00a0", "a", " a", "x-y"])
        fl = r.choice([None, set(), {fp.RegexFlag.CASE_INSENSITIVE}, {fp.RegexFlag.LITERAL_MATCHING}, {fp.RegexFlag.CASE_SENSITIVE, fp.RegexFlag.IGNORE_DIACRITICS}])
        given = None if fl is None else set(fl)
        n = fp.Expression(q, "text", r.choice(list(fp.Operator)), "a", given)
        empty = q is None or not q.strip()
        if n.is_layer_qualifier_empty() is not empty or (n.qualifier is None) is not empty or (not empty and n.qualifier != q):
            ctx.violation(f"condition built with qualifier {q!r} has qualifier {n.qualifier!r}")
        if given is not None:
            given ^= set(r.choice([list(fp.RegexFlag), [fp.RegexFlag.IGNORE_DIACRITICS, fp.RegexFlag.LITERAL_MATCHING]]))
        if n.is_regex_flags_empty() is not (not fl) or (n.regex_flags or set()) != (fl or set()):
            ctx.violation(f"condition built with flags {fl!r} has flags {n.regex_flags!r}")
        check(ctx, n, r, "Expression")
        ctx.hit("hand-made nodes")
