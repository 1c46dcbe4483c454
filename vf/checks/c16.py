"""C16: results belong to their caller: nothing shared between them, nothing changed by using them."""
import collections
import copy
import types

from .. import common, gen, ref, sut


def cases(ctx):
    r = ctx.rng
    for _ in range(ctx.share(ctx.n)):
        yield {"seed": r.randrange(2**48)}


def mutables(root):
    """ids of every mutable object of a tree"""
    out = {}
    for n in sut.nodes(root):
        for o, what in [(n, "node"), (n.children, "list of children")] + ([(n.regex_flags, "flag set")] if getattr(n, "regex_flags", None) is not None else []):
            if not isinstance(o, (frozenset, tuple)):
                if id(o) in out:
                    yield None, f"one {what} appears twice in one tree ({type(n).__name__})"
                out[id(o)] = (o, what)
    for i, (o, what) in out.items():
        yield i, (o, what)


def state(root):
    out = []
    for n in sut.nodes(root):
        d = {k: v for k, v in vars(n).items() if not k.startswith("_")}
        out.append((id(n), type(n).__name__, id(n.parent), tuple(id(c) for c in n.children), str(n.node_type),
                    tuple((k, repr(sorted(map(str, v))) if isinstance(v, (set, frozenset)) else repr(v)) for k, v in sorted(d.items())
                          if k not in ("children", "parent") and not isinstance(v, (sut.fp.QueryNode, list)))))
    return out


class Reader(sut.fp.QueryVisitorAdapter):
    def __init__(self):
        self.n = 0

    def visit_Expression(self, node):
        self.n += 1
        return super().visit_Expression(node)


def use(r, x, t):
    """everything a caller can do with a tree without asking for a change"""
    what = []
    for _ in range(r.choice([1, 2, 4])):
        k = r.randrange(7)
        what.append(k)
        if k == 0:
            str(x), repr(x)
        elif k == 1:
            Reader().visit(x)
            x.accept(Reader())
        elif k == 2:
            v = sut.fv.FCSQLValidator(raise_at_first_violation=False, warnings_as_errors=r.random() < 0.5, allowed_layer_identifiers=r.choice([None, ["text"], []]),
                                      allowed_layer_qualifiers=r.choice([None, [("text", ["a"]), ("lemma", None)]]))
            v.validate(x, query=r.choice([t, None]))
            v.is_valid(x)
        elif k == 3:
            sut.fv.FCSQLValidator().is_valid(x, query=t)
        elif k == 4:
            for n in sut.nodes(x):
                n.child_count, n.get_child(0), n.get_first_child(), n.get_last_child(), n.get_child(1, sut.fp.QuerySegment), n.get_last_child(sut.fp.Expression)
                n.has_node_type(n.node_type)
                for m in ("get_query", "get_within", "get_expression", "get_content", "operands"):
                    a = getattr(n, m, None)
                    if callable(a):
                        a()
        elif k == 5:
            for n in sut.nodes(x):
                if isinstance(n, sut.fp.Expression):
                    n.has_layer_identifier("text"), n.has_layer_qualifier("a"), n.has_operator(sut.fp.Operator.EQUALS), n.has_regex_flag(sut.fp.RegexFlag.CASE_SENSITIVE)
                    n.is_layer_qualifier_empty(), n.is_regex_flags_empty()
        else:
            for n in sut.nodes(x):
                str(n)
    return what


def evaluate(case, ctx):
    r = common.derive(case["seed"])
    g = gen.Gen(r, hostile=False, maxnot=2)
    c = common.rcfg(r)
    base = g.query(r.choice([1, 2, 4, 8]), cfg=common.cfg(c))[0]
    wide = r.choice(['[a="1" | b="2" | c="3"/i]', '[a="1" & b="2" & c="3" & d="4"]', '"a" | "b" | "c" | "d" | "e"', '"a" "b" "c" "d" "e" "f"', '(("a"){2}) within s', '[!(a="b" | c="d")]'])
    texts = [wide, wide, base, base, g.query(2, cfg=common.cfg(c))[0], '"a"/i "a"/i [] []', "[]", '"a"', base]
    p = sut.parser(common.cfg(c), True)
    q = sut.parser(common.cfg(c), False)
    kept = []

    def holds(o, out, depth=6):
        """everything a parser object refers to"""
        for x in (o.values() if isinstance(o, dict) else o if isinstance(o, (list, tuple, set, frozenset, collections.deque)) else getattr(o, "__dict__", {}).values()):
            if id(x) not in out and not isinstance(x, (str, int, type, types.ModuleType, types.FunctionType)):
                out[id(x)] = x
                if depth:
                    holds(x, out, depth - 1)
        return out
    for t in texts:
        v = common.expect(t, c)
        if not v.ok:
            continue
        try:
            x = r.choice([p, p, q]).parse(t)
        except sut.fp.QueryParserException as ex:
            ctx.violation(f"{t[:200]!r} rejected: {ex}")
            return
        kept.append((t, x, sut.snap(x).key(), list(mutables(x))))
    ids = {}
    for t, x, _, ms in kept:
        for i, m in ms:
            if i is None:
                ctx.violation(f"{t[:200]!r}: {m}")
                return
            if i in ids:
                ctx.violation(f"the trees of {ids[i][:100]!r} and {t[:100]!r} share a {m[1]}")
                return
        for i, m in ms:
            ids[i] = t
    for u in (p, q):
        for i in holds(u, {}):
            if i in ids:
                ctx.violation(f"the parser still refers to a node, list or flag set of the tree of {ids[i][:150]!r}: {holds(u, {})[i]!r:.100}")
                return
    ctx.hit("objects compared for identity", len(ids))
    ctx.distinct(*sorted({t for t, _, _, _ in kept}))
    # using a tree does not change it
    for t, x, k, _ in kept:
        s0 = state(x)
        w = use(r, x, t)
        ctx.hit("uses observed", len(w))
        if state(x) != s0:
            d = next((a, b) for a, b in zip(s0, state(x)) if a != b) if len(s0) == len(state(x)) else "number of nodes"
            ctx.violation(f"{t[:200]!r}: reading the tree (operations {w}) changed it: {d!r:.400}")
            return
    # vandalising one result changes no other
    victims = r.sample(range(len(kept)), r.choice([len(kept) // 2, len(kept)]))
    for i in victims:
        for n in list(sut.nodes(kept[i][1])):
            if isinstance(n, sut.fp.Expression):
                n.regex, n.identifier, n.qualifier, n.operator = "V", "V", "V", None
                if n.regex_flags:
                    n.regex_flags.clear()
                else:
                    n.regex_flags = {sut.fp.RegexFlag.LITERAL_MATCHING}
            if hasattr(n, "min_occurs"):
                n.min_occurs = n.max_occurs = 77
            if isinstance(n, sut.fp.SimpleWithin):
                n.scope = None
            n.parent = r.choice([n, None])
            n.location = None
            n.children.clear()
        ctx.hit("results vandalised")
    for i, (t, x, k, _) in enumerate(kept):
        if i not in victims and sut.snap(x).key() != k:
            ctx.violation(f"changing another result changed the tree of {t[:200]!r}")
            return
    for t, x, k, _ in kept:
        used = r.choice([p, q])
        y = used.parse(t)
        for i, m in mutables(y):
            if i is None or i in ids:
                ctx.violation(f"{t[:200]!r}: the result has a {m[1]} of an earlier result ({ids[i][:100]!r}) that its owner had taken apart" if i else f"{t[:200]!r}: {m}")
                return
        v = common.expect(t, c)
        if used is q:
            for n in v.tree.walk():
                n.loc = None
        if "!" not in t and sut.snap(y).key() != v.tree.key():
            ctx.violation(f"changing earlier results changed what {t[:200]!r} parses to now: {sut.snap(y)!r:.300}")
            return
        # parsing again does not touch what was handed out
    # lists of errors and warnings belong to the caller, too
    bad = [gen.hostile(r) for _ in range(3)] + ["#", '"a" )', "[", '"a"']
    held = []
    for t in bad:
        kind, _ = common.attempt(p, t)
        held.append((t, p.errors, [sut.err_key(e) for e in p.errors]))
        ctx.hit("error lists held")
    for t, e, k in held:
        if [sut.err_key(x) for x in e] != k:
            ctx.violation(f"the list of errors taken for {t[:100]!r} changed when the parser was used again")
            return
    for a in range(len(held)):
        for b in range(a):
            if held[a][1] is held[b][1]:
                ctx.violation("two parses share one list of errors")
                return
    val = sut.fv.FCSQLValidator(raise_at_first_violation=False)
    hv = []
    for t in ['[foo="a"]', '"a"', '[word="b"] [bar="c"]', '[pos="x"]', '"z"']:
        val.validate(sut.fcsql.parse(t), query=t)
        hv.append((t, val.errors, val.warnings, [sut.err_key(e) for e in val.errors], [sut.err_key(e) for e in val.warnings]))
        if val.errors is val.warnings:
            ctx.violation("errors and warnings are one list")
    for t, e, w, ke, kw in hv:
        if [sut.err_key(x) for x in e] != ke or [sut.err_key(x) for x in w] != kw:
            ctx.violation(f"the errors or warnings taken for {t!r} changed when the validator was used again")
            return
