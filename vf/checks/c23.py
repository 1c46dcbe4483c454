"""C23: all validation modes and entry points agree on one query."""
from .. import common, gen, hand, ref, sut, vconf

fv, fp = sut.fv, sut.fp


def cases(ctx):
    r = ctx.rng
    for _ in range(ctx.share(ctx.n)):
        yield {"seed": r.randrange(2**48)}


def run(v, tree, q):
    try:
        return v.validate(tree, query=q)
    except fv.SpecificationValidationError as ex:
        return ex


class Noisy(fv.Validator):
    """warnings on wildcards and groups, errors on conditions with the value 'bad' and on SimpleWithin/Text"""

    def visit_ExpressionWildcard(self, node):
        self.validation_warning(node, "wildcard")
        return super().visit_ExpressionWildcard(node)

    def visit_QueryGroup(self, node):
        self.validation_warning(node, "group")
        return super().visit_QueryGroup(node)

    def visit_Expression(self, node):
        if node.identifier in ("foo", "Text"):
            self.validation_error(node, "name")
        if node.qualifier:
            self.validation_warning(node, "qualified")
        return super().visit_Expression(node)

    def visit_SimpleWithin(self, node):
        self.validation_error(node, "context")
        return super().visit_SimpleWithin(node)


def evaluate(case, ctx):
    r = common.derive(case["seed"])
    t, tree = vconf.tree(r)
    conf = vconf.conf(r)
    q = r.choice([t, None])

    def short(k):
        """settings left out when they are the documented defaults"""
        return {a: b for a, b in k.items() if (a, b) not in (("raise_at_first_violation", True), ("warnings_as_errors", False)) or r.random() < 0.5}
    if r.random() < 0.7:
        mk = lambda **k: fv.FCSQLValidator(**vconf.kwargs(conf), **short(k))
    else:
        conf = "custom"
        mk = lambda **k: Noisy(**short(k))
    what = f"{t if t else str(tree)!r:.200} with {conf}"
    ctx.distinct(str(tree), repr(conf))
    res = {}
    for rf in (True, False):
        for wae in (True, False):
            v = mk(raise_at_first_violation=rf, warnings_as_errors=wae)
            out = run(v, tree, q)
            res[rf, wae] = (out, [sut.err_key(e) for e in v.errors], [sut.err_key(e) for e in v.warnings])
            v2 = mk(raise_at_first_violation=rf, warnings_as_errors=wae)
            iv = v2.is_valid(tree, query=q)
            ctx.hit("modes observed")
            if iv is not (out is True):
                ctx.violation(f"{what}: is_valid() {iv!r} but validate() {out!r:.150} (raise={rf}, strict={wae})")
                return
            # the order of asking makes no difference: validate() after is_valid() on one object, and the other way round
            o4 = run(v2, tree, q)
            l4 = [sut.err_key(e) for e in v2.errors], [sut.err_key(e) for e in v2.warnings]
            if (str(o4), *l4) != (str(out), *res[rf, wae][1:]):
                ctx.violation(f"{what}: validate() after is_valid() gives {o4!r:.100} {l4!r:.150}, without it {out!r:.100} {res[rf, wae][1:]!r:.150} (raise={rf}, strict={wae})")
                return
            if v.is_valid(tree, query=q) is not iv or (v.raise_at_first_violation, v.warnings_as_errors) != (rf, wae):
                ctx.violation(f"{what}: is_valid() after validate() is {not iv}, settings {v.raise_at_first_violation}, {v.warnings_as_errors} (raise={rf}, strict={wae})")
                return
            ctx.hit("repeated on one object")
            # the query passed at construction or at the call: same result
            v3 = mk(raise_at_first_violation=rf, warnings_as_errors=wae, query=q)
            o3 = run(v3, tree, None)
            if (str(o3), [sut.err_key(e) for e in v3.errors], [sut.err_key(e) for e in v3.warnings]) != (str(out), *res[rf, wae][1:]):
                ctx.violation(f"{what}: different result when the query text is given at construction")
                return
    (o1, e1, w1), (o2, e2, w2) = res[False, False], res[False, True]
    if (e1, w1) != (e2, w2):
        ctx.violation(f"{what}: treating warnings as errors changes what is collected: {e1!r:.150} {w1!r:.150} / {e2!r:.150} {w2!r:.150}")
        return
    if o1 is not (not e1) or o2 is not (not e1 and not w1):
        ctx.violation(f"{what}: collected {len(e1)} errors, {len(w1)} warnings but verdicts {o1!r}, strict {o2!r}")
        return
    for wae in (False, True):
        o, e, w = res[True, wae]
        objections = bool(e1) or (wae and bool(w1))
        ctx.hit("objected" if objections else "passed")
        if isinstance(o, Exception) is not objections or (not objections and o is not True):
            ctx.violation(f"{what}: raising mode (strict={wae}) gave {o!r:.150} although collecting finds {len(e1)} errors, {len(w1)} warnings")
            return
        if objections:
            msgs = [x[0] for x in e1] + ([x[0] for x in w1] if wae else [])
            if str(o) not in msgs:
                ctx.violation(f"{what}: raised {str(o)[:120]!r} which is not among the collected {msgs!r:.200}")
                return
            if e:
                ctx.violation(f"{what}: raising mode also lists errors {e!r:.150}")
                return
            if not wae and w != w1[: len(w)]:
                ctx.violation(f"{what}: warnings before the raised error {w!r:.150} are not a prefix of {w1!r:.150}")
                return
            if not e1 and str(o) != w1[0][0] or not (wae and w1) and str(o) != e1[0][0]:
                ctx.violation(f"{what}: the raised objection is not the first one")
                return
        elif w != w1:
            ctx.violation(f"{what}: warnings {w!r:.150} instead of {w1!r:.150}")
            return
    # the convenience function says the same as the validator with default settings
    if t is not None and conf != "custom":
        try:
            tr = sut.fcsql.parse(t)
        except fp.QueryParserException:
            return
        for wae in (False, True):
            v = fv.FCSQLValidator(query=t, raise_at_first_violation=False, warnings_as_errors=wae)
            ok = v.validate(tr)
            b = sut.fcsql.validate(t, warnings_as_errors=wae)
            lst = sut.fcsql.validate(t, warnings_as_errors=wae, return_errors=True)
            want = v.errors + (v.warnings if wae else [])
            ctx.hit("convenience results compared")
            if b is not ok or [sut.err_key(x) for x in lst] != [sut.err_key(x) for x in want]:
                ctx.violation(f"{t!r:.200}: validate() gives {b!r} / {lst!r:.200}, the validator {ok!r} / {want!r:.200} (strict={wae})")
                return
