"""C24: validators can be used again and again, and always know the parent of the node at hand."""
from .. import common, gen, hand, ref, sut, vconf, words

fv, fp = sut.fv, sut.fp


def cases(ctx):
    r = ctx.rng
    for _ in range(ctx.share(ctx.n)):
        yield {"seed": r.randrange(2**48)}


def parented(base, boom_at=None):
    """a validator class that records parent_node in every handler, before and after its children"""
    def h(k):
        def f(self, node):
            self.events.append(("in", node, self.parent_node))
            self.count += 1
            if self.boom and self.count == self.boom:
                raise RuntimeError("handler failed")
            if self.count == self.nest:  # another validator is used in the middle of this one
                self.inner()
                self.events.append(("in", node, self.parent_node))
            res = getattr(super(cls, self), "visit_" + k)(node)
            self.events.append(("out", node, self.parent_node))
            return res if self.gives is None else self.gives
        return f
    d = {"visit_" + k: h(k) for k in sut.KINDS}
    cls = type("P" + base.__name__, (base,), d)
    cls.gives = None
    cls.boom, cls.nest, cls.count, cls.events = 0, 0, 0, ()
    return cls


PF, PV = parented(fv.FCSQLValidator), parented(fv.Validator)


def run(v, tree, q, via):
    v.events, v.count = [], 0
    try:
        return getattr(v, via)(tree, query=q)
    except fv.SpecificationValidationError as ex:
        return ("raised", str(ex), ex.query_fragment)
    except RuntimeError as ex:
        return ("boom",)


def node_of(tree):
    return tree.children[0] if tree.children else tree


def result(v):
    return [sut.err_key(e) for e in v.errors], [sut.err_key(e) for e in v.warnings]


def evaluate(case, ctx):
    r = common.derive(case["seed"])
    conf = vconf.conf(r)
    rf, wae = r.random() < 0.5, r.random() < 0.4
    cls = r.choice([PF, PF, PV])
    mk = lambda: cls(raise_at_first_violation=rf, warnings_as_errors=wae, **(vconf.kwargs(conf) if cls is PF else {}))
    v = mk()
    n = words.INTS and r.random() < 0.03 and words.size(r, 600) or r.choice([3, 8, 20])
    never = r.random() < 0.2  # no query text at all
    trees = [vconf.tree(r) for _ in range(max(2, n // 3))]
    for step in range(n):
        t, tree = r.choice(trees)
        start = tree
        if r.random() < 0.2:
            start = r.choice(list(sut.nodes(tree)))
        q = None if never else t if t is not None else "x" * 60
        via = r.choice(["validate", "validate", "is_valid"])
        boom = r.choice([0, 0, 0, r.randint(1, 6)])
        f = mk()
        v.boom = f.boom = boom
        # the used validator is interrupted by the use of another one, the new one is not
        v.nest = 0 if r.random() < 0.7 else r.randint(1, 6)
        done = []
        if v.nest:
            t2, tree2 = r.choice(trees)
            other = r.choice([mk, mk, lambda: PF(raise_at_first_violation=False), lambda: PV()])()
            other.boom = r.choice([0, 0, 2])
            v.inner = lambda: done.append(run(other, tree2, "y" * 60 if t2 is None else t2, "validate"))
        v.gives = f.gives = r.choice([None, None, None, False, True, 0, "x", [], node_of(tree)])
        a, b = run(v, start, q, via), run(f, start, q, via)
        ctx.hit("validations observed")
        ctx.hit("validations within validations", len(done))
        ctx.distinct(str(start), repr(conf), a, via, boom)
        if isinstance(a, tuple):
            ctx.hit("aborted validations")
        if a != b or result(v) != result(f):
            ctx.violation(f"validation {step} of a used validator ({t!r:.150}, {via}, {conf}, raise={rf}, strict={wae}): {a!r:.100} {result(v)!r:.250}; a new one: {b!r:.100} {result(f)!r:.250}")
            return
        if v.errors is f.errors:
            ctx.violation("two validators share their list of errors")
            return
        for who, val in (("used", v), ("new", f)):
            for ev, node, par in val.events:
                want = node.parent if node is not start else None
                ctx.hit("parents observed")
                if ev == "in" and par is not want:
                    ctx.violation(f"validation {step} of a {who} validator ({t!r:.150}): parent of {type(node).__name__} reported as {type(par).__name__}, it is {type(want).__name__}")
                    return
                if ev == "out" and par is not want:
                    ctx.violation(f"validation {step} of a {who} validator ({t!r:.150}): after its children the parent of {type(node).__name__} is reported as {type(par).__name__}, it is {type(want).__name__}")
                    return
            if not isinstance(a, tuple) and a is True and not boom and len(val.events) - (len(done) if val is v else 0) != 2 * sum(1 for _ in sut.nodes(start)):
                ctx.violation(f"validation {step}: {len(val.events)} handler events for {sum(1 for _ in sut.nodes(start))} nodes")
                return
        if not isinstance(a, tuple) and not boom and via == "validate" and v.parent_node is not None:
            ctx.violation(f"validation {step}: a parent is reported after the validation ended")
            return
    # settings of one validator do not leak into another
    d = fv.FCSQLValidator(raise_at_first_violation=False)
    t = '[foo="a"] [x:text="b"] "c"'
    d.validate(sut.fcsql.parse(t), query=t)
    if [e.fragment for e in d.errors] != ['[foo="a"]'[1:-1]] and [e.fragment for e in d.errors] != ['[foo="a"]']:
        ctx.violation(f"a validator with default settings reports {d.errors!r:.200} after others were used")
