"""C22: what validation messages say and where they point."""
import dataclasses

from .. import common, gen, hand, ref, sut, vconf

fv, fp = sut.fv, sut.fp


def cases(ctx):
    r = ctx.rng
    for _ in range(ctx.share(ctx.n)):
        yield {"seed": r.randrange(2**48)}


class Custom(fv.Validator):
    """a user-defined validator: complains about everything it meets"""

    def __init__(self, plan, **kw):
        super().__init__(**kw)
        self.plan = plan

    def visit(self, node):
        for sev in self.plan(node):
            (self.validation_error if sev == "error" else self.validation_warning)(node, f"{sev} at {type(node).__name__}")
        return super().visit(node)


def key(e):
    return (e.message, e.type, None if e.position is None else (e.position.start, e.position.stop), e.fragment)


def evaluate(case, ctx):
    r = common.derive(case["seed"])
    t, tree = vconf.tree(r)
    conf = vconf.conf(r)
    how = r.choice(["init", "call", "none", "empty", "both"])
    q = t if t is not None else "".join(r.choice("abcdef ") for _ in range(120))
    kw = vconf.kwargs(conf)
    other = "zzz" * 50
    init = {"init": q, "call": None, "none": None, "empty": "", "both": other}[how]
    call = {"init": None, "call": q, "none": None, "empty": None, "both": q}[how]
    wae = r.random() < 0.5
    v = fv.FCSQLValidator(query=init, raise_at_first_violation=False, warnings_as_errors=wae, **kw)
    if how == "call" and r.random() < 0.5:
        v.validate(tree)
    v.validate(tree, query=call)
    eff = q if how in ("init", "call", "both") else None
    want = ref.validate_spec(sut.snap(tree), conf["ids"], conf["quals"])
    if want:
        ctx.distinct(how, str(tree), tuple((s, rule) for s, _, rule in want))

    def frag(loc):
        return q[loc[0]:loc[1]] if eff and loc else None
    for name, lst, sev, typ in (("errors", v.errors, "error", "validation-error"), ("warnings", v.warnings, "warning", "validation-warning")):
        w = [(n, rule) for s, n, rule in want if s == sev]
        if len(lst) != len(w):
            ctx.violation(f"{t!r:.200} with {conf}: {len(lst)} {name}, expected {len(w)}")
            return
        for e, (n, rule) in zip(lst, w):
            ctx.hit("messages observed")
            ctx.hit("rule:" + rule)
            if not isinstance(e, fp.ErrorDetail) or e.type != typ:
                ctx.violation(f"{name} hold {e!r:.200}")
                return
            if e.position is not None and not isinstance(e.position, fp.SourceLocation):
                ctx.violation(f"position {e.position!r}")
                return
            k = key(e)
            if k[2] != n.loc:
                ctx.violation(f"{t!r:.200} with {conf}: {e.message!r:.100} points at {k[2]}, the condition is at {n.loc}")
                return
            if k[3] != frag(n.loc):
                ctx.violation(f"{t!r:.200} (query given by {how}): fragment {k[3]!r:.100}, expected {frag(n.loc)!r:.100}")
                return
            names = [n.at["identifier"]] + ([n.at["qualifier"]] if rule in ("noqualifier", "qualifier") else []) + ([n.at["regex"]] if rule == "ud17" else [])
            if not e.message or any(x not in e.message for x in names):
                ctx.violation(f"message {e.message!r:.200} does not name {names}")
                return
            if rule == "layer" and conf["ids"] and any(repr(a) not in e.message and a not in e.message for a in conf["ids"]):
                ctx.violation(f"message {e.message!r:.200} does not name the allowed {conf['ids']}")
                return
            try:
                e.message = "x"
            except (dataclasses.FrozenInstanceError, AttributeError):
                pass
            else:
                ctx.violation("a detail can be changed")
                return
    # the raising mode tells the same about the first objection
    first = [(s, n, rule) for s, n, rule in want if s == "error" or wae]
    v2 = fv.FCSQLValidator(query=init, raise_at_first_violation=True, warnings_as_errors=wae, **kw)
    exc = None
    try:
        v2.validate(tree, query=call)
    except fv.SpecificationValidationError as ex:
        exc = ex
    if (exc is not None) is not bool(first):
        ctx.violation(f"{t!r:.200} with {conf}, warnings_as_errors={wae}: raised {exc!r:.150}, expected {bool(first)}")
        return
    if exc is not None:
        s, n, rule = first[0]
        e = (v.errors if s == "error" else v.warnings)[0]
        loc = exc.node.location
        loc = loc and (loc.start, loc.stop)
        ctx.hit("raised objections compared")
        if str(exc) != e.message or exc.query_fragment != e.fragment or loc != n.loc or not any(exc.node is x for x in sut.nodes(tree)) or sut.snap(exc.node).key() != n.key():
            ctx.violation(f"{t!r:.200}: raised {str(exc)[:100]!r} {exc.query_fragment!r:.60} at {loc}; collected first: {e!r:.200}")
            return
    # user-defined validators get the same service
    seed = r.randrange(2**32)

    def plan(node):
        rr = common.derive(seed, [id(x) for x in order].index(id(node)))
        return rr.choice([[], [], ["error"], ["warning"], ["error", "warning"], ["warning", "error", "error"]])
    order = list(sut.nodes(tree))
    if len(order) > 60:
        return
    cv = Custom(plan, query=eff, raise_at_first_violation=False)
    ok = cv.validate(tree)
    for sev, lst in (("error", cv.errors), ("warning", cv.warnings)):
        exp = []
        for n in order:
            loc = n.location and (n.location.start, n.location.stop)
            exp += [(f"{s} at {type(n).__name__}", "validation-" + s, loc, frag(loc)) for s in plan(n) if s == sev]
        ctx.hit("custom messages observed", len(exp))
        if [key(e) for e in lst] != exp:
            ctx.violation(f"custom validator on {t!r:.150}: {sev}s {[key(e) for e in lst]!r:.250}, expected {exp!r:.250}")
            return
    if ok is not (not cv.errors):
        ctx.violation("verdict of a custom validator")
    # no message is invented for an error that was never raised in raise mode
    cw = Custom(lambda n: ["warning"], query=eff, raise_at_first_violation=True)
    if cw.validate(tree) is not True or len(cw.warnings) != len(order) or cw.errors:
        ctx.violation("warnings alone must neither raise nor make a query invalid")
