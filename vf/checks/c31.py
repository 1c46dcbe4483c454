"""C31: each parser setting changes exactly what it names, for this parser only, from the next query on."""
import unicodedata

from .. import common, gen, ref, sut, words

fcsql, fp = sut.fcsql, sut.fp
IDS = ["text", "lemma", "word", "pos", "x-own", "s", "within", "T", "with space", "\u00e4", "", "0", "A" * 60, "e\u0301", "%s", "i", "a:b", ":", "x:", "a b:c", "text ", "\n", "[]", "!"]
FORMS = ["NFC", "NFD", "NFKC", "NFKD", None]
NAMES = {"ident": "default_identifier", "op": "default_operator", "form": "unicode_normalization_form", "loc": "enableSourceLocations"}


def rset(r):
    return {"ident": words.string(r) if words.STRINGS and r.random() < 0.15 else r.choice(IDS), "op": r.choice(["Eq", "Ne"]), "form": r.choice(FORMS), "loc": r.random() < 0.5}


DEFAULT = {"ident": "text", "op": "Eq", "form": "NFC", "loc": False}


def cases(ctx):
    r = ctx.rng
    g = gen.Gen(r, hostile=True, maxnot=1)
    for i in range(ctx.share(ctx.n)):
        ts = []
        while len(ts) < 4:
            x = r.random()
            t = g.query(r.choice([1, 2, 3, 6]))[0] if x < 0.7 else gen.hostile(r) if x < 0.85 else gen.bad_semantics(r, g)
            if t.count("!") <= 1 and len(t) < 1000:
                ts.append(t)
        yield {"ts": ts, "seed": r.randrange(2**48)}


def build(s):
    kw = {NAMES[k]: sut.OPS[v] if k == "op" else v for k, v in s.items()}
    return fp.QueryParser(**kw)


def want_tree(t, s):
    """(verdict, tree) the documentation promises for a text under settings"""
    v = ref.analyse(t, ref.Cfg(s["ident"], s["op"], s["form"]))
    if v.ok and not s["loc"]:
        for n in v.tree.walk():
            n.loc = None
    return v


def implicit(v):
    """which conditions, in document order, were written as a bare literal"""
    out = []
    st = [v.cst]
    while st:
        x = st.pop()
        if x.rule == "query_implicit":
            out.append(True)
        elif x.rule == "expression_basic" or x.rule == "query_segment" and x.first("expression") is None:
            out.append(False)
        else:
            st.extend(reversed([k for k in x.kids if isinstance(k, ref.C)]))
    return out


def evaluate(case, ctx):
    r = common.derive(case["seed"])
    ps = []
    for _ in range(r.choice([2, 3, 4])):
        s = dict(DEFAULT)
        if r.random() < 0.8:
            given = {k: v for k, v in rset(r).items() if r.random() < 0.7}
        else:
            given = {}
        s.update(given)
        ps.append([s, build(given)])
    base = {}
    log = []
    for step in range(words.INTS and r.random() < 0.05 and words.size(r, 400) or r.choice([8, 16])):
        j = r.randrange(len(ps))
        s, p = ps[j]
        if r.random() < 0.35:
            k = r.choice(list(NAMES))
            s[k] = rset(r)[k]
            setattr(p, NAMES[k], sut.OPS[s[k]] if k == "op" else s[k])
            log.append(("set", j, k, s[k]))
            ctx.hit("settings changed between queries")
        t = r.choice(case["ts"])
        log.append(("parse", j, t))
        v = want_tree(t, s)
        if v.limit:
            continue
        kind, x = common.attempt(p, t)
        ctx.hit("parses observed")
        where = f"step {step} of {log!r:.900}: {t[:150]!r} with {s}"
        if kind != ("ok" if v.ok else "rejected"):
            ctx.violation(f"{where}: {kind} ({x!s:.100})")
            return
        for k, a in NAMES.items():
            got = getattr(p, a)
            if got is not (sut.OPS[s[k]] if k == "op" else s[k]) and got != s[k]:
                ctx.violation(f"{where}: the setting {a} is now {got!r}")
                return
        if kind == "rejected":
            e = (str(x), [sut.err_key(q) for q in p.errors])
            if base.setdefault(("rejected", t), e) != e:
                ctx.violation(f"{where}: what is wrong with it depends on the settings: {e!r:.200} / {base['rejected', t]!r:.200}")
                return
            continue
        got = sut.snap(x)
        d = ref.diff(v.tree, got)
        if d:
            ctx.violation(f"{where}: {d}")
            return
        # the same in terms of the settings alone: two results for one text differ only where a setting says so
        flat = []
        imp = iter(implicit(v))
        for n in got.walk():
            at = dict(n.at)
            if n.kind in ("Expression", "ExpressionWildcard"):
                bare = next(imp)
                if n.kind == "Expression":
                    raw = at.pop("regex")
                    flat_regex = raw
                    if bare:
                        if (at.pop("identifier"), at.pop("operator"), at.pop("qualifier")) != (s["ident"], s["op"], None):
                            ctx.violation(f"{where}: a bare literal did not get the defaults: {n!r:.200}")
                            return
                        ctx.hit("defaults applied")
                    if s["form"] and unicodedata.normalize(s["form"], flat_regex) != flat_regex:
                        ctx.violation(f"{where}: value {flat_regex!r:.100} is not normalised")
                        return
                    at["nfkd"] = unicodedata.normalize("NFKD", flat_regex)
            if (n.loc is not None) is not s["loc"]:
                ctx.violation(f"{where}: location {n.loc} of {n.kind}")
                return
            flat.append((n.kind, at, len(n.kids)))
        if base.setdefault(t, flat) != flat:
            ctx.violation(f"{where}: differs beyond the settings from an earlier parse")
            return
        ctx.distinct(t, tuple(sorted((k, str(q)) for k, q in s.items())))
    ctx.sample([str(q)[:100] for q in log[:6]], 2)
    # the module-level entry point uses the documented defaults and locations unless told otherwise
    t = r.choice(case["ts"])
    for kw, s in (({}, {**DEFAULT, "loc": True}), ({"enableSourceLocations": False}, DEFAULT), ({"enableSourceLocations": True}, {**DEFAULT, "loc": True})):
        v = want_tree(t, s)
        if v.ok:
            d = ref.diff(v.tree, sut.snap(fcsql.parse(t, **kw)))
            ctx.hit("parses observed")
            if d:
                ctx.violation(f"parse({t[:150]!r}, {kw}): {d}")
                return
    p = fp.QueryParser()
    if (p.default_identifier, p.default_operator, p.unicode_normalization_form, bool(p.enableSourceLocations)) != ("text", fp.Operator.EQUALS, "NFC", False):
        ctx.violation("a new parser does not have the documented default settings")
