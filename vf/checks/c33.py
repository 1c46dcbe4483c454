"""C33: trees, details and exceptions survive deep copying and pickling."""
import copy
import io
import os
import pickle
import subprocess
import sys

from .. import common, gen, hand, ref, sut, vconf

fp, fv, m = sut.fp, sut.fv, sut.fcsql
WAYS = ["deepcopy", 2, 3, 4, 5, "python pickler"]
WAITS = lambda case: case.get("k") == "process"  # noqa: E731


class CannotCopy(Exception):
    pass


def twin(x, way):
    try:
        return twin_(x, way)
    except Exception as e:
        raise CannotCopy(f"a {type(x).__name__} cannot be copied: {type(e).__name__}: {e!s:.200}") from e


def twin_(x, way):
    if way == "deepcopy":
        return copy.deepcopy(x)
    if way == "python pickler":
        b = io.BytesIO()
        pickle._Pickler(b).dump(x)
        return pickle._Unpickler(io.BytesIO(b.getvalue())).load()
    return pickle.loads(pickle.dumps(x, way))


def cases(ctx):
    r = ctx.rng
    g = gen.Gen(r, maxnot=2)
    for i in range(ctx.share(ctx.n)):
        x = i % 8
        if x == 0:
            yield {"k": "hand", "seed": r.randrange(2**48)}
        elif x < 4:
            yield {"k": "tree", "t": g.query(cfg=None)[0], "seed": r.randrange(2**48)}
        elif x == 4:
            yield {"k": "validation", "t": vconf.query(r), "seed": r.randrange(2**48)}
        elif x == 5:
            yield {"k": "rejected", "t": gen.bad_semantics(r, g), "seed": r.randrange(2**48)}
        else:
            yield {"k": "rejected", "t": gen.hostile(r), "seed": r.randrange(2**48)}
    for _ in range(ctx.share(max(8, ctx.n // 400))):
        yield {"k": "process", "seed": r.randrange(2**48)}


MUTABLE = (list, set, dict, bytearray)


def objects(root):
    for n in sut.nodes(root):
        yield n
        for v in vars(n).values() if hasattr(n, "__dict__") else ():
            if isinstance(v, MUTABLE):
                yield v


def compare(ctx, a, b, what):
    """b has to be a true, separate copy of a"""
    sa, sb = sut.snap(a), sut.snap(b)
    if sa.key() != sb.key() or [x.loc for x in sa.walk()] != [x.loc for x in sb.walk()]:
        ctx.violation(f"{what}: the copy is {sb!r:.250}, the original {sa!r:.250}")
        return False
    if str(a) != str(b):
        ctx.violation(f"{what}: the copy prints as {b!s:.200}, the original as {a!s:.200}")
        return False
    ids = {id(x) for x in objects(a)}
    st = [(b, None)]
    for x, y in zip(sut.nodes(a), sut.nodes(b)):
        if type(x) is not type(y) or x.node_type is not y.node_type:
            ctx.violation(f"{what}: a {type(x).__name__} became a {type(y).__name__} / {y.node_type!r}")
            return False
        if isinstance(x, fp.Expression):
            if x.operator is not y.operator or not y.has_operator(x.operator) or any(not y.has_regex_flag(f) for f in x.regex_flags or ()) or (x.regex_flags is None) is not (y.regex_flags is None):
                ctx.violation(f"{what}: operator or flags of {x!s:.100} are different objects in the copy ({y.operator!r}, {y.regex_flags!r})")
                return False
            if x.qualifier != y.qualifier or y.is_layer_qualifier_empty() is not x.is_layer_qualifier_empty() or y.is_regex_flags_empty() is not x.is_regex_flags_empty():
                ctx.violation(f"{what}: the copy of {x!s:.100} answers differently")
                return False
        if isinstance(x, fp.SimpleWithin) and x.scope is not y.scope:
            ctx.violation(f"{what}: scope {x.scope!r} became {y.scope!r}")
            return False
    while st:
        y, par = st.pop()
        if y.parent is not par:
            ctx.violation(f"{what}: in the copy the parent of a {type(y).__name__} is {type(y.parent).__name__}{' of the original' if id(y.parent) in ids else ''}, it hangs below {type(par).__name__}")
            return False
        st += [(k, y) for k in y.children]
    for y in objects(b):
        if id(y) in ids:
            ctx.violation(f"{what}: copy and original share a {type(y).__name__}")
            return False
    ctx.hit("nodes compared with their copy", len(ids))
    return True


def depth(n):
    return 1 + max((depth(k) for k in n.kids), default=0)


def detail(ctx, e, way, what):
    y = twin(e, way)
    ctx.hit("details copied")
    if type(y) is not type(e) or y != e or sut.err_key(y) != sut.err_key(e) or hash(y) != hash(e) or repr(y) != repr(e):
        ctx.violation(f"{what}: {e!r:.200} is copied as {y!r:.200}")
        return False
    if isinstance(e.position, fp.SourceLocation):
        if twin(e.position, way) != e.position or hash(twin(e.position, way)) != hash(e.position) or str(twin(e.position, way)) != str(e.position):
            ctx.violation(f"{what}: {e.position!r} is copied as {twin(e.position, way)!r}")
            return False
    return True


def exception(ctx, e, way, what):
    y = twin(e, way)
    ctx.hit("exceptions copied: " + type(e).__name__)
    if type(y) is not type(e) or str(y) != str(e) or y.args != e.args:
        ctx.violation(f"{what}: {e!r:.200} is copied as {y!r:.200}")
        return False
    if isinstance(e, fv.SpecificationValidationError):
        if y.query_fragment != e.query_fragment or type(y.node) is not type(e.node) or str(y.node) != str(e.node) or y.node is e.node or (y.node.parent is None) is not (e.node.parent is None):
            ctx.violation(f"{what}: {e!r:.150} about {e.node!s:.100} is copied with {y.node!s:.100}, {y.query_fragment!r:.80}")
            return False
    return True


def evaluate(case, ctx):
    try:
        check(case, ctx)
    except CannotCopy as e:
        ctx.violation(f"{case.get('t', case['k'])!r:.150}: {e}")


def check(case, ctx):
    r = common.derive(case["seed"])
    k = case["k"]
    if k == "process":
        return process(ctx, r)
    way = r.choice(WAYS)
    if k == "hand":
        x = hand.tree(r, r.choice([1, 2, 3]))
        before = sut.snap(x).key()
        ctx.hit("way:" + str(way))
        ctx.distinct(way, common.features(sut.snap(x)))
        y = twin(x, way)
        if compare(ctx, x, y, f"{way} of a hand-made tree") and sut.snap(x).key() != before:
            ctx.violation(f"{way} changes a hand-made tree")
        return
    t = case["t"]
    p = sut.parser(common.cfg(common.rcfg(r)), r.random() < 0.7)
    what = f"{way} of what {t[:150]!r} gives"
    kind, x = common.attempt(p, t)
    ctx.hit("k:" + k)
    if kind != "ok":
        if not isinstance(x, Exception):
            return
        try:
            p.parse(t)
        except fp.QueryParserException as ex:
            if not exception(ctx, ex, way, what):
                return
        if not all(detail(ctx, e, way, what) for e in p.errors[:5]):
            return
        try:
            import contextlib
            with contextlib.redirect_stderr(io.StringIO()):
                m.antlr_parse(t)
        except m.SyntaxError as ex:
            if not exception(ctx, ex, way, what):
                return
        q = twin(p, way)
        if [sut.err_key(e) for e in q.errors] != [sut.err_key(e) for e in p.errors] or settings(q) != settings(p):
            ctx.violation(f"{what}: a copied parser has errors {q.errors!r:.150} and settings {settings(q)}, the original {p.errors!r:.150} and {settings(p)}")
        return
    s = sut.snap(x)
    if depth(s) > 45 or len(t) > 4000:
        ctx.hit("too deep for copying (Python's own limit)")
        return
    ctx.hit("way:" + str(way))
    ctx.distinct(way, common.features(s))
    ctx.sample([t[:100], str(way)])
    y = twin(x, way)
    if not compare(ctx, x, y, what):
        return
    if sut.snap(x).key() != s.key():
        ctx.violation(f"{what}: copying changes the original")
        return
    # the copy is as good as the original for everything the library does
    seen = [[], []]
    for z, l in zip((x, y), seen):
        type("V", (fp.QueryVisitorAdapter,), {"visit_Expression": lambda self, n, l=l: l.append(n.regex), "visit_SimpleWithin": lambda self, n, l=l: l.append(n.scope)})().visit(z)
    if seen[0] != seen[1]:
        ctx.violation(f"{what}: a visitor sees {seen[1]!r:.150} in the copy, {seen[0]!r:.150} in the original")
        return
    conf = vconf.kwargs(vconf.conf(r))
    v, w = fv.FCSQLValidator(query=t, raise_at_first_violation=False, **conf), fv.FCSQLValidator(query=t, raise_at_first_violation=False, **conf)
    a, b = v.validate(x), w.validate(y)
    if a is not b or [sut.err_key(e) for e in v.errors + v.warnings] != [sut.err_key(e) for e in w.errors + w.warnings]:
        ctx.violation(f"{what}: the copy is judged {w.errors + w.warnings!r:.200}, the original {v.errors + v.warnings!r:.200}")
        return
    if not all(detail(ctx, e, way, what) for e in (v.errors + v.warnings)[:5]):
        return
    # a copied validator goes on like the original one
    u = twin(v, way)
    if [sut.err_key(e) for e in u.errors + u.warnings] != [sut.err_key(e) for e in v.errors + v.warnings] or u.validate(y) is not a or [sut.err_key(e) for e in u.errors + u.warnings] != [sut.err_key(e) for e in v.errors + v.warnings]:
        ctx.violation(f"{what}: a copied validator judges {u.errors + u.warnings!r:.200}, the original {v.errors + v.warnings!r:.200}")
        return
    ctx.hit("validators copied")
    for wae in (False, True):
        try:
            fv.FCSQLValidator(query=r.choice([t, None]), warnings_as_errors=wae, **conf).validate(x)
        except fv.SpecificationValidationError as ex:
            if not exception(ctx, ex, way, what):
                return
    # changing the copy leaves the original alone
    for n in sut.nodes(y):
        n.children.clear()
        n.location = None
        if isinstance(n, fp.Expression):
            n.regex = "changed"
            if n.regex_flags is not None:
                n.regex_flags.add(fp.RegexFlag.LITERAL_MATCHING)
    if sut.snap(x).key() != s.key():
        ctx.violation(f"{what}: changes of the copy show in the original")


def settings(p):
    return (p.default_identifier, sut.val(p.default_operator), p.unicode_normalization_form, p.enableSourceLocations)


REMOTE = """
import pickle, sys
sys.path.insert(0, sys.argv[1])
out = []
for how, b in pickle.load(open(sys.argv[2], "rb")):
    x = pickle.loads(b)
    if how == "tree":
        out.append((str(x), pickle.dumps(x)))
    else:
        out.append((repr(x), pickle.dumps(x)))
pickle.dump(out, open(sys.argv[3], "wb"))
"""


def process(ctx, r):
    """to another process (other hash seed, library not loaded yet) and back"""
    d = os.environ["VF_SCRATCH"]
    a, b = (os.path.join(d, f"p{os.getpid()}.{x}") for x in "ab")
    if os.path.exists(b):
        os.unlink(b)
    g = gen.Gen(r, hostile=False, maxnot=2)
    items = []
    for _ in range(40):
        t = g.query()[0]
        if common.expect(t).ok and len(t) < 2000:
            items.append(("tree", m.parse(t)))
        p = fp.QueryParser()
        kind, _ = common.attempt(p, gen.hostile(r))
        items += [("detail", e) for e in p.errors[:2]]
        try:
            fv.FCSQLValidator(warnings_as_errors=True).validate(m.parse(vconf.query(r)))
        except fv.SpecificationValidationError as ex:
            items.append(("exception", ex))
    for h, x in items:
        twin(x, 5)
    pickle.dump([(h, pickle.dumps(x)) for h, x in items], open(a, "wb"))
    pr = subprocess.run([sys.executable, "-B", "-c", REMOTE, sut.SRC, a, b], capture_output=True, text=True, errors="replace", timeout=300, env={**os.environ, "PYTHONHASHSEED": str(r.randrange(1, 1000))})
    if not os.path.exists(b):
        ctx.violation(f"pickled results cannot be read in another process: {pr.stderr[-400:]}")
        return
    for (h, x), (text, back) in zip(items, pickle.load(open(b, "rb"))):
        ctx.hit("results sent to another process")
        y = pickle.loads(back)
        if h == "tree":
            if text != str(x):
                ctx.violation(f"in another process {x!s:.200} is {text:.200}")
                return
            if not compare(ctx, x, y, "a tree sent to another process and back"):
                return
        elif text != repr(x) or repr(y) != repr(x) or h == "detail" and y != x:
            ctx.violation(f"in another process {x!r:.200} is {text:.200}")
            return
    ctx.distinct("process", len(items))
