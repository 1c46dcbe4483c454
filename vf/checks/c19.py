"""C19: visitors reach every node once, in document order, through the handler of its kind."""
from .. import common, gen, hand, ref, sut

fp = sut.fp
BASES = [fp.QueryVisitorAdapter, sut.fv.Validator]  # a validator is a visitor, too
ADAPTER = {k: "visit_" + k for k in sut.KINDS}


def cases(ctx):
    r = ctx.rng
    for i, c in enumerate(common.queries(ctx)):
        yield {**c, "seed": r.randrange(2**32), "k": "parsed"}
        if i % 3 == 0:
            yield {"seed": r.randrange(2**48), "k": "hand"}


def preorder(n, par=None):
    yield n, par
    for c in n.children:
        yield from preorder(c, n)


def make(base, handlers, extra=None):
    return type("V", (base,), {**handlers, **(extra or {})})()


def evaluate(case, ctx):
    r = common.derive(case["seed"])
    if case["k"] == "parsed":
        kind, x = common.attempt(sut.parser(common.cfg(case["c"]), r.random() < 0.5), case["t"])
        if kind != "ok":
            return
        what = case["t"][:200]
        ctx.sample(what[:120])
    else:
        x = hand.tree(r, r.choice([2, 3, 4]))
        what = "hand-made " + str(x)[:150]
        if r.random() < 0.2:
            # parts of the tree are used in other trees as well, which now are their parents
            for n in r.sample(list(sut.nodes(x)), 1):
                r.choice([lambda: fp.QueryGroup(n, 1, 1), lambda: fp.ExpressionNot(n), lambda: fp.QuerySequence([n, fp.ExpressionWildcard()])])()
    order = [n for n, _ in preorder(x)]
    if len(order) > 1500:
        return
    ctx.hit("trees traversed")
    ctx.distinct(common.features(sut.snap(x)))
    start = r.choice([lambda v: v.visit(x), lambda v: x.accept(v)])

    def bad(msg, trace=None, want=None):
        d = ""
        if trace is not None:
            i = next((i for i, (a, b) in enumerate(zip(trace, want)) if a != b), min(len(trace), len(want)))
            d = f": event {i}: expected {show(want, i)}, got {show(trace, i)} ({len(want)} / {len(trace)} events)"
        ctx.violation(f"{what!r}: {msg}{d}")

    def show(t, i):
        return [e[0] if isinstance(e, tuple) else type(e).__name__ for e in t[i:i + 1]]

    # 1. all handlers, continuing by super(): each node exactly once, by its own handler, entered and left like brackets
    tr = []

    def mk(k):
        def h(self, node):
            tr.append((k, id(node), 1))
            res = getattr(super(type(self), self), "visit_" + k)(node)
            tr.append((k, id(node), 0))
            return res
        return h
    start(make(r.choice(BASES), {ADAPTER[k]: mk(k) for k in sut.KINDS}))
    want = []

    def go(n):
        k = sut.kind_of(n)
        want.append((k, id(n), 1))
        for c in n.children:
            go(c)
        want.append((k, id(n), 0))
    go(x)
    ctx.hit("handler calls observed", len(tr))
    if tr != want:
        return bad("complete visitor", tr, want)

    # 2. a subset of handlers that do not continue: nodes below are not reached, everything else is
    sub = set(r.sample(sut.KINDS, r.randint(1, 5)))
    tr2 = []

    def stop(k):
        def h(self, node):
            tr2.append((k, id(node)))
            return k
        return h
    start(make(r.choice([fp.QueryVisitorAdapter, fp.QueryVisitor]), {ADAPTER[k]: stop(k) for k in sub}))
    want2 = []

    def go2(n):
        k = sut.kind_of(n)
        if k in sub:
            want2.append((k, id(n)))
            return
        for c in n.children:
            go2(c)
    go2(x)
    if tr2 != want2:
        return bad(f"visitor handling only {sorted(sub)}", tr2, want2)

    # 3. without the adapter: handlers by node type name, everything else falls through to the children
    sub = set(r.sample(sut.KINDS, r.randint(1, 6)))
    tr3 = []

    def cont(k):
        def h(self, node):
            tr3.append((k, id(node)))
            return self.visitChildren(node)
        return h
    start(make(fp.QueryVisitor, {"visit_" + ref.node_type(k): cont(k) for k in sub}))
    want3 = [(sut.kind_of(n), id(n)) for n in order if sut.kind_of(n) in sub]
    if tr3 != want3:
        return bad(f"visitor with handlers for the node types {sorted(ref.node_type(k) for k in sub)}", tr3, want3)

    # 4. results: default, aggregation in order, stopping early
    mode = r.choice(["last", "sum", "list", "stop"])
    leafv = {}

    def val(self, node):
        return leafv.setdefault(id(node), len(leafv) + 1)
    valued = r.choice([("Expression", "SimpleWithin")] * 3 + [("Expression",), ("SimpleWithin",), ("ExpressionWildcard", "Expression"), ("ExpressionWildcard",), ("Expression", "SimpleWithin", "ExpressionWildcard")])
    handlers = {"visit_" + k: val for k in valued}
    log = []

    def agg(self, a, b):
        log.append(("agg", repr(a), repr(b)))
        return b if mode == "last" else (a or 0) + (b or 0) if mode != "list" else [a, b]
    limit = r.randint(1, 6)
    base = r.choice(BASES)
    ctx.hit("results of a " + base.__name__)

    def should(self, node, cur):
        log.append(("should", id(node), repr(cur)))
        return not (mode == "stop" and (cur or 0) >= limit)
    default = r.choice([None, 0, 10]) if mode != "list" else None
    extra = {"aggregateResult": agg, "shouldVisitNextChild": should, "defaultResult": lambda self: default}
    got = start(make(base, handlers, extra))
    glog = list(log)
    log.clear()
    leafv.clear()

    def model(n):
        k = sut.kind_of(n)
        if k in valued:
            return val(None, n)
        res = default
        for c in n.children:
            if not should(None, n, res):
                return res
            res = agg(None, res, model(c))
        return res
    exp = model(x)
    ctx.hit("results compared")
    if repr(got) != repr(exp) or glog != log:
        return bad(f"results ({mode}, default {default}): expected {exp!r:.150}, got {got!r:.150}", glog, log)
    # the plain rules: no handler result without aggregation is the last child's; nothing for nothing
    leafv.clear()
    got = start(make(base, handlers))
    leafv2 = dict(leafv)
    leafv.clear()

    def model2(n):
        if sut.kind_of(n) in valued:
            return val(None, n)
        res = None
        for c in n.children:
            res = model2(c)
        return res
    if got != model2(x) or leafv != leafv2:
        return bad(f"default result: {got!r}")
    if fp.QueryVisitorAdapter().visit(x) is not None or fp.QueryVisitor().visit(None) is not None:
        return bad("an empty visitor returns something")

    # 5. a visitor may be used again, also after an exception
    class Boom(Exception):
        pass
    boom = r.choice([Boom, Boom, AttributeError, TypeError, KeyError, IndexError, LookupError, ValueError, StopIteration, RecursionError, AssertionError, NotImplementedError, NameError, OSError,
                     KeyboardInterrupt, SystemExit, GeneratorExit, MemoryError, fp.QueryParserException, sut.fv.SpecificationValidationError])
    thrown = boom("x") if boom is not sut.fv.SpecificationValidationError else boom("x", node=x)
    at = r.randrange(len(order))
    st = {"n": 0, "armed": True}
    tr5 = []

    def cnt(k):
        def h(self, node):
            tr5.append((k, id(node)))
            st["n"] += 1
            if st["armed"] and st["n"] > at:
                raise thrown
            return getattr(super(type(self), self), "visit_" + k)(node)
        return h
    v = make(fp.QueryVisitorAdapter, {ADAPTER[k]: cnt(k) for k in sut.KINDS})
    try:
        start(v)
        return bad("an exception of a handler was swallowed")
    except BaseException as ex:
        if ex is not thrown:
            return bad(f"a handler raised {thrown!r:.100}, the caller gets {ex!r:.200}")
        ctx.hit("exception type " + boom.__name__)
        if len(tr5) != at + 1:
            return bad(f"{len(tr5) - at - 1} more handlers were called after one had raised {boom.__name__}")
        ctx.hit("handler exceptions propagated")
    st["armed"] = False
    tr5.clear()
    start(v)
    if tr5 != [(sut.kind_of(n), id(n)) for n in order]:
        return bad("visitor used again after an exception", tr5, [(sut.kind_of(n), id(n)) for n in order])
