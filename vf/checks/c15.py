"""C15: an interrupted parse or validation leaves nothing behind."""
import sys

from .. import common, gen, ref, sut


class Crash:
    """raises `exc` at the k-th executed line of the code under test (k=None: only count)"""

    TOOL = 4

    def __init__(self, k=None, exc=KeyboardInterrupt):
        self.k, self.exc, self.n, self.where = k, exc, 0, None

    def __enter__(self):
        mon = sys.monitoring
        mon.use_tool_id(self.TOOL, "vf-crash")
        mon.register_callback(self.TOOL, mon.events.LINE, self.line)
        mon.set_events(self.TOOL, mon.events.LINE)
        mon.restart_events()
        return self

    def __exit__(self, *a):
        mon = sys.monitoring
        mon.set_events(self.TOOL, 0)
        mon.register_callback(self.TOOL, mon.events.LINE, None)
        mon.free_tool_id(self.TOOL)

    def line(self, code, line):
        if not code.co_filename.startswith(sut.SRC):
            return sys.monitoring.DISABLE
        self.n += 1
        if self.n == self.k:
            self.where = (code.co_filename.rsplit("/", 1)[1], code.co_name, line)
            raise self.exc("injected")


def cases(ctx):
    r = ctx.rng
    for _ in range(ctx.share(ctx.n)):
        yield {"seed": r.randrange(2**48), "k": r.choice(["parse", "parse", "parse", "validate", "stack"])}


PROBES = ['"a"', '[lemma="b" & pos!="c"]', '("x" | "y"){2,3} within s', "[word='w'/i] []*", '[x-a="1" | (b:pos="N")]']
BADPROBES = ['"a" )', "[", '"a"/il', '"a"{3,1}', "#"]
C0 = ("text", "Eq", "NFC")


def settings(p):
    return {k: getattr(p, k) for k in ("default_identifier", "default_operator", "unicode_normalization_form", "enableSourceLocations")}


def check_after(ctx, p, c, probes, what, own):
    """the parser that was interrupted (with the settings `own`) and a fresh one both still tell the truth"""
    if settings(p) != own:
        ctx.violation(f"after {what}: the settings of the parser are {settings(p)}, they were {own}")
        return False
    for t in probes:
        v = common.expect(t, c)
        for q in (p, None):
            q = q or sut.parser(common.cfg(c), True)
            kind, x = common.attempt(q, t)
            ctx.hit("probes after an interruption")
            if kind != ("ok" if v.ok else "rejected"):
                ctx.violation(f"after {what}: {t[:150]!r} is {kind} ({x!s:.150})")
                return False
            if kind == "ok":
                if sut.snap(x).key() != v.tree.key(q is not p or own["enableSourceLocations"]):
                    ctx.violation(f"after {what}: {t[:150]!r} gives {sut.snap(x)!r:.200}")
                    return False
                if q.errors:
                    ctx.violation(f"after {what}: {t[:150]!r} accepted with errors {q.errors!r:.200}")
                    return False
            elif v.syntax and q.errors or not v.syntax and (not q.errors or q.errors[0].message not in str(x) or any(e.fragment and not t.startswith(e.fragment) for e in q.errors)):
                ctx.violation(f"after {what}: {t[:150]!r} rejected ({x!s:.100}) with errors {q.errors!r:.200}")
                return False
    return True


class Parents(sut.fv.FCSQLValidator):
    def __init__(self, **kw):
        super().__init__(**kw)
        self.seen = []

    def visit_Expression(self, node):
        self.seen.append((node, self.parent_node))
        return super().visit_Expression(node)

    def visit_QueryGroup(self, node):
        self.seen.append((node, self.parent_node))
        return super().visit_QueryGroup(node)


def evaluate(case, ctx):
    r = common.derive(case["seed"])
    g = gen.Gen(r, hostile=False, maxnot=1)
    c = r.choice([list(C0), ["lemma", "Ne", "NFD"]])
    p = sut.parser(common.cfg(c), case["k"] == "validate" or r.random() < 0.6)
    own = settings(p)
    if case["k"] == "stack":
        return stack(case, ctx, r, c, p)
    while True:
        t = g.query(r.choice([1, 2, 3, 5]))[0] if r.random() < 0.8 else gen.hostile(r)
        v = common.expect(t, c)
        if t.count("!") <= 2 and len(t) < 300 and not v.limit:
            break
    if case["k"] == "validate":
        if not v.ok:
            return
        return validate(ctx, r, t, c, p)
    common.attempt(p, t)
    with Crash() as cr:
        common.attempt(p, t)
    total = cr.n
    ctx.peak("lines of one parse", total)
    state = common.process_state()
    ks = sorted({r.randint(1, total) for _ in range(r.choice([4, 10, 25]))} | {total, max(1, total - 1), max(1, total - 2)})
    for k in ks:
        exc = r.choice([KeyboardInterrupt, KeyboardInterrupt, MemoryError, SystemExit, GeneratorExit])
        how = r.choice(["parser", "module", "validate", "can_parse"])
        out = None
        with Crash(k, exc) as cr:
            try:
                if how == "parser":
                    p.parse(t)
                elif how == "module":
                    sut.fcsql.parse(t)
                elif how == "can_parse":
                    sut.fcsql.can_parse(t)
                else:
                    sut.fcsql.validate(t)
                out = "returned"
            except exc as ex:
                out = "propagated"
            except sut.fp.QueryParserException:
                out = "converted"
        if cr.where is None:
            ctx.hit("crash point not reached")
            continue
        ctx.hit("crash points hit")
        ctx.hit("outcome:" + out)
        now = common.process_state()
        ctx.hit("process states compared")
        if now != state:
            k = next(k for k in state if state[k] != now[k])
            ctx.violation(f"{exc.__name__} while {how} runs {t[:150]!r} (at {cr.where}) leaves the {k} of the process changed: {now[k]!r:.150}, it was {state[k]!r:.150}")
            return
        ctx.distinct(cr.where, exc.__name__)
        ctx.sample({"text": t[:100], "crash": cr.where, "exception": exc.__name__, "outcome": out}, 2)
        if exc is not MemoryError and out != "propagated":
            ctx.violation(f"{exc.__name__} while {how} runs {t[:150]!r} (at {cr.where}) was {out} instead of reaching the caller")
            return
        probes = r.sample(PROBES + BADPROBES, 2) + [t]
        if not check_after(ctx, p, c, [x for x in probes if "!" not in x or "!=" in x and x.count("!") == x.count("!=")], f"{exc.__name__} at {cr.where}", own):
            return


def validate(ctx, r, t, c, p):
    tree = p.parse(t)
    before, links = sut.snap(tree), [(n, n.parent) for n in sut.nodes(tree)]
    raise_mode, wae = r.random() < 0.3, r.random() < 0.3
    val = Parents(raise_at_first_violation=raise_mode, warnings_as_errors=wae)

    def go(v, n, q):
        try:
            return v.validate(n, query=q)
        except sut.fv.SpecificationValidationError as ex:
            return ("raised", ex.node is not None, str(ex))
    start = tree if r.random() < 0.6 else r.choice(links)[0]  # parts of trees are validated, too
    go(val, start, t)
    with Crash() as cr:
        go(val, start, t)
    total = cr.n
    probes = [x for x in r.sample(PROBES, 3)]
    state = common.process_state()
    flags = val.raise_at_first_violation, val.warnings_as_errors
    for k in sorted(k for k in {r.randint(1, total) for _ in range(8)} | set(range(1, 16)) | set(range(total - 4, total + 1)) if 0 < k <= total):
        exc = r.choice([KeyboardInterrupt, MemoryError])
        with Crash(k, exc) as cr:
            try:
                go(val, start, t)
            except exc:
                ctx.hit("validation interrupted")
        if cr.where is None:
            continue
        ctx.hit("crash points hit")
        ctx.distinct(cr.where, exc.__name__, "v")
        now = common.process_state()
        if now != state:
            k = next(k for k in state if state[k] != now[k])
            ctx.violation(f"{exc.__name__} during a validation (at {cr.where}) leaves the {k} of the process changed: {now[k]!r:.150}, it was {state[k]!r:.150}")
            return
        if (val.raise_at_first_violation, val.warnings_as_errors) != flags:
            ctx.violation(f"{exc.__name__} at {cr.where} during a validation of {t[:150]!r} leaves the settings of the validator changed")
            return
        if any(n.parent is not q for n, q in links):
            ctx.violation(f"{exc.__name__} at {cr.where} during the validation of a part of {t[:150]!r} changed the parent of a node")
            return
        if sut.snap(tree).key() != before.key():
            ctx.violation(f"{exc.__name__} at {cr.where} changed the validated tree")
            return
        for q in probes:
            n = sut.parser(None, True).parse(q)
            ref_v = Parents(raise_at_first_violation=raise_mode, warnings_as_errors=wae)
            a, b = go(val, n, q), go(ref_v, n, q)
            ctx.hit("probes after an interruption")
            val_seen = val.seen[-len(ref_v.seen):] if ref_v.seen else []
            val.seen.clear()
            ka = [sut.err_key(e) for e in val.errors + val.warnings]
            kb = [sut.err_key(e) for e in ref_v.errors + ref_v.warnings]
            if a != b or ka != kb:
                ctx.violation(f"after {exc.__name__} at {cr.where}: validating {q!r} gives {a} {ka}, a new validator {b} {kb}")
                return
            if any(x is not y or px is not x.parent for (x, px), (y, _) in zip(val_seen, ref_v.seen)):
                ctx.violation(f"after {exc.__name__} at {cr.where}: wrong parent reported while validating {q!r}")
                return


def at_depth(d, f):
    if d <= 0:
        return f()
    return at_depth(d - 1, f)


def stack(case, ctx, r, c, p):
    """parsing with (nearly) no stack left, and queries nested beyond it"""
    g = gen.Gen(r, hostile=False, maxnot=1)
    t = g.query(r.choice([1, 2, 4]))[0]
    if "!" in t.replace("!=", ""):
        t = '("a" | [b="c"]){2} within p'
    if r.random() < 0.3:
        n = r.choice([100, 150, 220])
        t2 = r.choice(["(" * n + '"a"' + ")" * n, "[" + "(" * n + 'a="b"' + ")" * n + "]", "[" + "&".join(['a="b"'] * n * 2) + "]"])
        try:
            p.parse(t2)
        except sut.fp.QueryParserException:
            ctx.hit("too deep queries rejected")
    v = common.expect(t, c)
    own = settings(p)
    base = 0
    f = sys._getframe()
    while f:
        base += 1
        f = f.f_back
    room = sys.getrecursionlimit() - base
    state = common.process_state()
    for left in sorted({r.randint(5, 220) for _ in range(6)}):
        try:
            kind, x = at_depth(room - left, lambda: common.attempt(p, t))
        except RecursionError:
            kind, x = "escaped", None
        ctx.hit("crash points hit")
        ctx.hit("stack:" + kind)
        ctx.distinct("stack", left)
        if kind == "ok" and v.ok and sut.snap(x).key() != v.tree.key(own["enableSourceLocations"]):
            ctx.violation(f"with {left} stack frames left {t[:150]!r} gives {sut.snap(x)!r:.200}")
            return
        if kind == "ok" and not v.ok:
            ctx.violation(f"with {left} stack frames left {t[:150]!r} is accepted")
            return
    now = common.process_state()
    if now != state:
        k = next(k for k in state if state[k] != now[k])
        ctx.violation(f"running out of stack while parsing {t[:150]!r} leaves the {k} of the process changed: {now[k]!r:.150}, it was {state[k]!r:.150}")
        return
    check_after(ctx, p, c, r.sample(PROBES + BADPROBES, 3) + [t], "running out of stack", own)
