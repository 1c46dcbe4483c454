"""C25: the convenience validation function, for any text."""
from .. import common, gen, hand, ref, sut, vconf

fv, fp, m = sut.fv, sut.fp, sut.fcsql


def cases(ctx):
    r = ctx.rng
    g = gen.Gen(r, hostile=False, maxnot=2)
    for i in range(ctx.share(ctx.n)):
        x = i % 5
        if x in (0, 1):
            t = vconf.query(r)
        elif x == 2:
            t = g.query()[0]
        elif x == 3:
            t = gen.bad_semantics(r, g)
        else:
            t = gen.hostile(r)
        yield {"t": t, "k": "text", "seed": r.randrange(2**32)}
    for t in ctx.mine(["", " ", "#", "\x00", "\ud800", '"\ud800"', "(" * 300 + '"a"' + ")" * 300, "(" * 120 + '"a"' + ")" * 120, "[" + "(" * 220 + 'a="b"' + ")" * 220 + "]", "(" * 300, '"a"' * 2000,
                       '"a"{' + "9" * 5000 + "}", "[" + "&".join(['foo="b"'] * 300) + "]", '"a" | ' * 60 + '"b"']):
        yield {"t": t, "k": "odd", "seed": 1}
    for d in ctx.mine(range(60, 260, 20)):
        yield {"t": "(" * d + '"a"' + ")" * d, "k": "odd", "seed": 1}
        yield {"t": "[" + "(" * d + 'a="b"' + ")" * d + "]", "k": "odd", "seed": 1}


class Probe(fv.Validator):
    """a registered custom validator that records how it is used"""

    made = []

    def __init__(self, **kw):
        super().__init__(**kw)
        Probe.made.append(kw)

    def visit_Expression(self, node):
        if node.regex.startswith("a"):
            self.validation_error(node, "starts with a")
        if node.identifier == "text":
            self.validation_warning(node, "is text")
        if node.regex == "NOUN" or node.qualifier:
            # the same objection twice, without and with a place
            self.validation_error(fp.ExpressionWildcard(), "twice")
            self.validation_error(node, "twice")
            self.validation_error(fp.ExpressionWildcard(), "twice")
            self.validation_error(node, "twice")
        return super().visit_Expression(node)

    def visit_SimpleWithin(self, node):
        if node.scope in (fp.SimpleWithinScope.PARAGRAPH, fp.SimpleWithinScope.TEXT):
            # a part without a place in the text
            self.validation_error(fp.SimpleWithin(node.scope), "no such scope")
        return super().visit_SimpleWithin(node)


def evaluate(case, ctx):
    t = case["t"]
    r = common.derive(case["seed"])
    ctx.hit(case["k"])
    # unknown versions are refused whatever the text
    for bad in r.sample(["", "1.0", "2", "2.2.0", "22", " 2.2", "FCS", "x"], 2):
        for re_ in (False, True):
            try:
                y = m.validate(t, version=bad, return_errors=re_)
            except ValueError:
                ctx.hit("unknown versions refused")
                continue
            ctx.violation(f"validate({t[:100]!r}, version={bad!r}) gave {y!r:.100}")
            return
    extreme = case["k"] == "odd"
    vd = None if extreme else ref.analyse(t)
    res = {}
    for wae in (False, True):
        for kw in ({}, {"version": "2.2"})[: 1 if extreme else 2]:
            b = m.validate(t, warnings_as_errors=wae, **kw)
            lst = m.validate(t, warnings_as_errors=wae, return_errors=True, **kw)
            ctx.hit("calls observed", 2)
            if type(b) is not bool or not isinstance(lst, list) or any(not isinstance(e, fp.ErrorDetail) or not e.message for e in lst):
                ctx.violation(f"validate({t[:150]!r}) gave {b!r} / {lst!r:.200}")
                return
            if b is not (not lst) and not extreme:
                ctx.violation(f"validate({t[:150]!r}, warnings_as_errors={wae}) is {b} but lists {lst!r:.200}")
                return
            k = (b, [sut.err_key(e) for e in lst])
            if wae in res and res[wae] != k and not extreme:
                ctx.violation(f"validate({t[:150]!r}): naming the default version changes the result")
                return
            res[wae] = k
    ctx.distinct(res[False][0], res[True][0], tuple(e[0][:30] for e in res[True][1][:3]))
    if case["k"] == "text":
        ctx.sample([t[:120], [e[0][:80] for e in res[True][1][:2]]])
    if extreme or vd.limit:
        return
    p = fp.QueryParser(enableSourceLocations=True)
    if not vd.ok:
        kind, ex = common.attempt(p, t)
        want = [sut.err_key(e) for e in p.errors] if not vd.syntax else None
        for wae in (False, True):
            b, lst = res[wae]
            if b is not False:
                ctx.violation(f"validate({t[:150]!r}) is True for a text that is not a query")
                return
            if want is not None and lst != want:
                ctx.violation(f"validate({t[:150]!r}) lists {lst!r:.200}, the parser {want!r:.200}")
                return
            if want is None and (len(lst) != 1 or kind != "rejected" or lst[0][0] != str(ex)):
                ctx.violation(f"validate({t[:150]!r}) lists {lst!r:.200}, the parser says {ex!s:.150}")
                return
        ctx.hit("not a query")
        return
    spec = ref.validate_spec(vd.tree)
    quirk = "!" in t
    for wae in (False, True):
        want = [(s, n.loc, t[n.loc[0]:n.loc[1]]) for s, n, _ in spec if s == "error"] + ([(s, n.loc, t[n.loc[0]:n.loc[1]]) for s, n, _ in spec if s == "warning"] if wae else [])
        b, lst = res[wae]
        have = [("error" if k[1] == "validation-error" else "warning", k[2] and k[2][1:], k[3]) for k in lst]
        ctx.hit("valid" if not want else "objections compared")
        if b is not (not want):
            ctx.violation(f"validate({t[:200]!r}, warnings_as_errors={wae}) is {b}, expected {not want}")
            return
        if have != want and not quirk or sorted(map(str, have)) != sorted(map(str, want)):
            ctx.violation(f"validate({t[:200]!r}, warnings_as_errors={wae}) lists {have!r:.250}, expected {want!r:.250}")
            return
    # validators registered by the application
    ver = r.choice(["9.9", "custom", "2.2-own", bad, bad])  # also one that was refused a moment ago
    m.VALIDATORS[ver] = Probe
    try:
        Probe.made.clear()
        wae = r.random() < 0.5
        b = m.validate(t, version=ver, warnings_as_errors=wae)
        lst = m.validate(t, version=ver, return_errors=True, warnings_as_errors=wae)
        leaves = [n for n in vd.tree.walk() if n.kind == "Expression"]
        want = [("starts with a", n.loc) for n in leaves if n.at["regex"].startswith("a")] + ([("is text", n.loc) for n in leaves if n.at["identifier"] == "text"] if wae else [])
        if any(n.kind == "SimpleWithin" and n.at["scope"] in ("Paragraph", "Text") for n in vd.tree.walk()):
            want.append(("no such scope", None))
            ctx.hit("objections without a place")
        for n in leaves:
            if n.at["regex"] == "NOUN" or n.at["qualifier"]:
                want += [("twice", None), ("twice", n.loc)] * 2
                ctx.hit("equal objections")
        have = [(e.message, (e.position.start, e.position.stop) if isinstance(e.position, fp.SourceLocation) else None) for e in lst]
        ctx.hit("registered validators used", len(Probe.made))
        if b is not (not want) or sorted(have, key=str) != sorted(want, key=str) or len(Probe.made) != 2:
            ctx.violation(f"registered validator on {t[:150]!r}: {b} / {have!r:.200}, expected {want!r:.200}")
    finally:
        del m.VALIDATORS[ver]
    try:
        m.validate(t, version=ver)
        ctx.violation(f"validate({t[:150]!r}) still knows version {ver!r} after its validator was removed")
        return
    except ValueError:
        pass
    own = m.VALIDATORS["2.2"]
    m.VALIDATORS["2.2"] = Probe
    try:
        Probe.made.clear()
        kw = r.choice([{}, {"version": "2.2"}])
        b2 = m.validate(t, warnings_as_errors=wae, **kw)
        lst2 = m.validate(t, return_errors=True, warnings_as_errors=wae, **kw)
        if b2 is not b or [sut.err_key(e) for e in lst2] != [sut.err_key(e) for e in lst]:
            ctx.violation(f"validate({t[:150]!r}): the validator registered in place of the built-in one gives {b2} / {lst2!r:.200}, under another version {b} / {lst!r:.200}")
            return
        if len(Probe.made) != 2:
            ctx.violation(f"validate({t[:150]!r}) does not use the validator registered in place of the built-in one")
            return
    finally:
        m.VALIDATORS["2.2"] = own
    if m.validate(t) is not res[False][0]:
        ctx.violation(f"validate({t[:150]!r}) changed after another validator was registered and removed")
