"""C17: parents, children and child look-up."""
from .. import common, gen, hand, ref, sut

fp = sut.fp
CLASSES = [sut.CLS[k] for k in sut.KINDS] + [fp.QueryNode]
# classes of a program, with names that are also node types or names of the library's classes
CLASSES += [type(str(n), (b,), {}) for n in list(fp.QueryNodeType) + ["Expression", "QueryGroup", "QuerySegment"] for b in (fp.QueryNode, sut.CLS["ExpressionGroup"])] + [object]


def cases(ctx):
    r = ctx.rng
    for i, c in enumerate(common.queries(ctx)):
        yield {**c, "seed": r.randrange(2**32), "k": "parsed"}
        if i % 3 == 0:
            yield {"seed": r.randrange(2**48), "k": "hand"}
            yield {"seed": r.randrange(2**48), "k": "node"}


NODETYPE = {k: ref.node_type(k) for k in sut.KINDS}


def same(a, b):
    return a is b


def check(ctx, root, what, r, parent=None):
    todo = [(root, parent)]
    seen = set()
    total = 0
    while todo:
        n, par = todo.pop()
        total += 1
        if total > 5000:
            ctx.violation(f"{what}: more than 5000 nodes")
            return False
        if id(n) in seen:
            ctx.violation(f"{what}: a {type(n).__name__} is reachable twice")
            return False
        seen.add(id(n))
        if n.parent is not par:
            ctx.violation(f"{what}: parent of a {type(n).__name__} is {type(n.parent).__name__}, it hangs below {type(par).__name__}")
            return False
        kids = n.children
        if not isinstance(kids, list) or n.child_count != len(kids):
            ctx.violation(f"{what}: child_count {n.child_count} with {len(kids)} children")
            return False
        for cl in [None] + r.sample(CLASSES, 4) + [type(k) for k in kids[:2]]:
            sub = [k for k in kids if cl is None or isinstance(k, cl)]
            idx = list(range(-3, len(kids) + 3)) if len(kids) < 8 else [-len(kids), -1, 0, 1, 2, len(sub) - 1, len(sub), len(kids) - 1, len(kids), len(kids) + 1] + [r.randrange(len(kids)) for _ in range(4)]
            for i in idx:
                want = sub[i] if 0 <= i < len(sub) else None
                got = n.get_child(i, cl) if cl or r.random() < 0.5 else n.get_child(i)
                ctx.hit("look-ups observed")
                if got is not want:
                    ctx.violation(f"{what}: get_child({i}, {cl and cl.__name__}) of {type(n).__name__} with {[type(k).__name__ for k in kids]} is {got!s:.80}, expected {want!s:.80}")
                    return False
            if n.get_first_child(cl) is not (sub[0] if sub else None):
                ctx.violation(f"{what}: get_first_child({cl and cl.__name__}) with {[type(k).__name__ for k in kids]} is {n.get_first_child(cl)!s:.80}")
                return False
            if n.get_last_child(cl) is not (sub[-1] if sub else None):
                ctx.violation(f"{what}: get_last_child({cl and cl.__name__}) with {[type(k).__name__ for k in kids]} is {n.get_last_child(cl)!s:.80}")
                return False
        k = sut.kind_of(n)
        if k in ("Expression", "SimpleWithin") and kids:
            ctx.violation(f"{what}: a {k} has children")
            return False
        named = {"QueryWithWithin": [("get_query", 0), ("get_within", 1)], "QuerySegment": [("get_expression", 0)], "QueryGroup": [("get_content", 0)]}.get(k, [])
        for m, i in named:
            want = kids[i] if i < len(kids) else None
            if getattr(n, m)() is not want:
                ctx.violation(f"{what}: {m}() is not child {i}")
                return False
            ctx.hit("named look-ups observed")
        if k in ("ExpressionAnd", "ExpressionOr") and (len(n.operands) != len(kids) or any(a is not b for a, b in zip(n.operands, kids))):
            ctx.violation(f"{what}: operands are not the children")
            return False
        todo += [(c, n) for c in kids]
    ctx.peak("nodes in one tree", total)
    return True


def evaluate(case, ctx):
    r = common.derive(case["seed"])
    ctx.hit("k:" + case["k"])
    if case["k"] == "parsed":
        kind, x = common.attempt(sut.parser(common.cfg(case["c"]), r.random() < 0.5), case["t"])
        if kind != "ok":
            ctx.hit("rejected (other property)")
            return
        ctx.distinct(common.features(sut.snap(x)))
        ctx.sample(case["t"][:200])
        check(ctx, x, case["t"][:200], r)
        # arity of the parts
        for n in sut.nodes(x):
            k, c = sut.kind_of(n), len(n.children)
            lo, hi = {"QuerySegment": (1, 1), "QueryGroup": (1, 1), "ExpressionGroup": (1, 1), "ExpressionNot": (1, 1), "ExpressionWildcard": (0, 0), "ExpressionAnd": (2, 10**9),
                      "ExpressionOr": (2, 10**9), "QueryDisjunction": (2, 10**9), "QuerySequence": (1, 10**9), "QueryWithWithin": (2, 2)}.get(k, (0, 0))
            if not lo <= c <= hi:
                ctx.violation(f"{case['t'][:200]!r}: a {k} with {c} children")
                return
    elif case["k"] == "hand":
        x = hand.tree(r, r.choice([1, 2, 3, 4]))
        ctx.distinct(common.features(sut.snap(x)))
        if check(ctx, x, f"tree built by hand {x!s:.150}", r):
            sub = r.choice(list(sut.nodes(x)))
            w = fp.ExpressionGroup(sub)
            if r.random() < 0.7:
                # the caller changes the lists of children
                for n in list(sut.nodes(x)):
                    if sut.kind_of(n) in ("QuerySequence", "QueryDisjunction", "ExpressionAnd", "ExpressionOr") and r.random() < 0.7:
                        for _ in range(r.choice([1, 2])):
                            if r.random() < 0.4 and n.children:
                                n.children.pop(r.randrange(len(n.children))).parent = None
                            else:
                                e = hand.expr(r)
                                e.parent = n
                                n.children.insert(r.randint(0, len(n.children)), e)
                        ctx.hit("lists of children changed")
                sub.parent = None if sub is x else sub.parent
                if any(k.parent is not n for n in sut.nodes(x) for k in n.children):
                    return  # the sub-tree that was moved
                if not check(ctx, x, f"changed tree {x!s:.150}", r):
                    return
                return
            if sub.parent is not w or w.get_first_child() is not sub:
                ctx.violation("moving a node below a new one does not update its parent")
    else:
        # the base constructor: children and child together, lists are copied
        kids = [hand.expr(r) for _ in range(r.choice([0, 1, 2, 3, 9]))]
        one = r.choice([None, hand.expr(r), fp.ExpressionWildcard()])
        nt = r.choice(list(fp.QueryNodeType))

        class Own(fp.QueryNode):
            pass
        lst = list(kids)
        form = r.choice(["list", "none"]) if not kids else "list"
        wild = r.random() < 0.3
        n = (fp.ExpressionWildcard if wild else lambda **kw: Own(nt, **kw))(children=lst if form == "list" else None, child=one)
        lst.append(hand.expr(r))
        lst.reverse()
        want = kids + ([one] if one is not None else [])
        ctx.distinct(len(want), str(nt), one is None, wild)
        ctx.hit("wildcards with children" if wild else "plain nodes")
        if len(n.children) != len(want) or any(a is not b for a, b in zip(n.children, want)) or any(k.parent is not n for k in want) or n.parent is not None:
            ctx.violation(f"node built from {len(kids)} children and {'one' if one else 'no'} child has {[type(k).__name__ for k in n.children]}")
            return
        for cl in (None, fp.Expression, fp.ExpressionWildcard, fp.QueryGroup):
            sub = [k for k in want if cl is None or isinstance(k, cl)]
            for i in range(-2, len(want) + 2):
                ctx.hit("look-ups observed")
                if n.get_child(i, cl) is not (sub[i] if 0 <= i < len(sub) else None):
                    ctx.violation(f"get_child({i}, {cl}) of a hand-built node")
                    return
