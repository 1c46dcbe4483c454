"""C30: nothing of a finished query stays behind: long-lived processes do not grow with the queries they serve."""
import gc
import threading
import tracemalloc
import weakref

from antlr4 import CommonTokenStream, InputStream
from antlr4.ParserRuleContext import ParserRuleContext
from antlr4.Token import CommonToken

from .. import common, gen, sut

fcsql, fp, fv = sut.fcsql, sut.fp, sut.fv
TYPES = {"query nodes": fp.QueryNode, "parse contexts": ParserRuleContext, "tokens": CommonToken, "error details": fp.ErrorDetail,
         "locations": fp.SourceLocation, "query parsers": fp.QueryParser, "validators": fv.Validator, "parser exceptions": fp.QueryParserException,
         "input streams": InputStream, "token streams": CommonTokenStream, "grammar parsers": fcsql.FCSParser, "grammar lexers": fcsql.FCSLexer,
         "tree builders": fp.ExpressionTreeBuilder, "error listeners": fp.ErrorListener, "stack overflows": RecursionError}
MODES = ["parse", "parser", "rejected", "rejected parser", "meaning", "can_parse", "validate", "validate list", "validator", "visitor", "antlr", "antlr rejected",
         "interrupted", "threads", "many parsers", "string form", "held leaf", "no locations", "default settings", "too deep"]


def cases(ctx):
    r = ctx.rng
    for m in ctx.mine(MODES * max(1, ctx.n // 100)):
        yield {"mode": m, "seed": r.randrange(2**48), "n": 900 if ctx.thorough else 300}


def census():
    gc.collect()
    out = dict.fromkeys(TYPES, 0)
    kinds = {}
    for o in gc.get_objects():
        t = type(o)
        k = kinds.get(t)
        if k is None:
            k = kinds[t] = [n for n, c in TYPES.items() if issubclass(t, c)]
        for n in k:
            out[n] += 1
    return out


STRICT = ["query nodes", "parse contexts", "tokens", "error details", "locations", "parser exceptions", "input streams", "token streams"]
START = census()


class Stop(BaseException):
    pass


class Plain(fp.QueryVisitorAdapter):
    pass


class V(fp.QueryVisitorAdapter):
    def visit_Expression(self, node):
        raise Stop()


class W(fv.FCSQLValidator):
    def visit_Expression(self, node):
        raise Stop()


def evaluate(case, ctx):
    mode, n = case["mode"], case["n"]
    if mode == "too deep":
        n = 40 if n > 300 else 14
    r = common.derive(case["seed"])
    ctx.hit("mode:" + mode)
    shapes = ['"{}"', '[a="{}"]', '"{}" | ("b" "{}")', '[x:a!="{}" & (b="{}" | c="d")]{{1,3}} within s', '[a="{}"/l] []*', "'{}'/i", '"{}\\n\\u0041\\."',
              '[{}:{}="\\x41{}"/d & !{}!="x"]', '"e\u0301{}\u212b"{{2,}} | \'{}\\\'\'/id within text', '("\\U0001F600{}")+']
    warned = ['[word="{}"]', '[x-own="{}"] [word="{}"]', '[pos="{}"]', '[y:word="{}" & x-{}="a"] "b"']
    broken = ['# # # # # # # # {}', '"{}" # % & $ § # }} {{ ( ! * *', '"{}" ) ( ] [ }} {{ ' * 8, '("{}" | ' * 12, '[a="{}" & b="{}" & [[[[ !', '"{}"{{1,2,3}} within within s', '"{}" )', '[a="{}"', '"{}" #', '"{}', '[="{}"]', '"{}" within x', '{}']
    wrong = ['"{}"/iI', '"{}"{{3,1}}', '[a="{}"/ld]', '"{}\\UFFFFFFFF"']
    serial = [0]

    big = [False]

    def lit():
        serial[0] += 1
        if big[0]:
            return f"q{serial[0]:07d}" + "".join(chr(97 + serial[0] * i * i % 26) for i in range(12000))
        return f"q{serial[0]:07d}" + "abcdefghijklmnop" * 20

    def text(pool):
        s = pool[serial[0] % len(pool)]
        return s.format(*[lit() for _ in range(s.count("{}"))])

    p0 = fp.QueryParser()
    v0 = fv.FCSQLValidator(raise_at_first_violation=False)
    leafs = []

    def once():
        if mode == "parse":
            fcsql.parse(text(shapes))
        elif mode == "no locations":
            fcsql.parse(text(shapes), enableSourceLocations=False)
        elif mode == "default settings":
            fp.QueryParser(default_identifier=lit(), default_operator=fp.Operator.NOT_EQUALS, unicode_normalization_form="NFKD").parse(text(shapes))
        elif mode == "parser":
            p0.parse(text(shapes))
        elif mode in ("rejected", "rejected parser", "meaning"):
            try:
                (p0.parse if mode == "rejected parser" else fcsql.parse)(text(wrong if mode == "meaning" else broken))
            except fp.QueryParserException:
                pass
        elif mode == "can_parse":
            fcsql.can_parse(text(shapes + broken + wrong))
        elif mode == "validate":
            fcsql.validate(text(shapes + broken + wrong + warned), warnings_as_errors=serial[0] % 3 == 0)
        elif mode == "validate list":
            fcsql.validate(text(shapes + broken + wrong + warned), return_errors=True, warnings_as_errors=serial[0] % 3 != 0)
        elif mode == "validator":
            t = text(shapes + warned)
            x = fcsql.parse(t)
            v0.validate(x, query=t) if serial[0] % 2 else v0.validate(x)
        elif mode == "visitor":
            Plain().visit(fcsql.parse(text(shapes)))
        elif mode == "antlr":
            fcsql.antlr_parse(text(shapes))
        elif mode == "antlr rejected":
            import contextlib
            import io
            with contextlib.redirect_stderr(io.StringIO()):
                try:
                    fcsql.antlr_parse(text(broken))
                except fcsql.SyntaxError:
                    pass
        elif mode == "interrupted":
            try:
                V().visit(fcsql.parse(text(shapes)))
            except Stop:
                pass
            try:
                W(query=text(shapes)).validate(fcsql.parse(text(shapes)))
            except Stop:
                pass
        elif mode == "threads":
            t = text(shapes)
            th = threading.Thread(target=lambda: (fcsql.can_parse(t), fcsql.validate(t)))
            th.start()
            th.join()
        elif mode == "many parsers":
            fp.QueryParser().parse(text(shapes))
            fcsql.can_parse(text(broken))
        elif mode == "too deep":
            t = ("(" * 220 + f'"{lit()}"' + ")" * 220) if serial[0] % 2 else "[" + "(" * 180 + f'a="{lit()}"' + ")" * 180 + "]"
            try:
                (fcsql.parse, p0.parse, fcsql.can_parse, fcsql.validate)[serial[0] % 4](t)
            except fp.QueryParserException:
                pass
        elif mode == "string form":
            str(fcsql.parse(text(shapes)))
        elif mode == "held leaf":
            x = fcsql.parse(text(shapes))
            ref = weakref.ref(x)
            leafs[:] = [next(k for k in sut.nodes(x) if not k.children)]
            assert ref() is x

    for _ in range(n):
        once()
    before = census()
    tracemalloc.start()
    try:
        for _ in range(max(20, n // 10)):
            once()
        gc.collect()
        m0 = tracemalloc.get_traced_memory()[0]
        for _ in range(n):
            once()
        gc.collect()
        m1 = tracemalloc.get_traced_memory()[0]
        top = tracemalloc.take_snapshot().statistics("lineno")[:3] if m1 - m0 > 200 * n + 30000 else None
    finally:
        tracemalloc.stop()
    after = census()
    ctx.hit("queries processed", serial[0])
    ctx.hit("live objects counted", sum(after.values()))
    ctx.distinct(mode, tuple(sorted(after.items())))
    ctx.peak("bytes kept per query: " + mode, round(max(0, m1 - m0) / n, 1))
    ctx.sample({"mode": mode, "live": {k: x for k, x in after.items() if x}, "bytes kept": m1 - m0})
    for k in TYPES:
        if after[k] - before[k] > max(12, n // 20):
            ctx.violation(f"mode {mode!r}: {after[k]} {k} alive after {2 * n} queries, {before[k]} after {n}")
            return
    # the very last query is gone as well, and so is a big one
    kept = {"too deep": lambda: p0.parse('"a"'), "parser": lambda: p0.parse('"a"'), "rejected parser": lambda: p0.parse('"a"'), "validator": lambda: v0.validate(fcsql.parse('"a"'), query='"a"')}.get(mode, lambda: None)
    leafs.clear()
    kept()
    left = census()
    for k in STRICT:
        if left[k] > START[k]:
            ctx.violation(f"mode {mode!r}: {left[k] - START[k]} {k} still alive when all results are dropped")
            return
    ctx.hit("checked that nothing is left")
    for _ in range(3):
        # one query text in several shapes; what is kept of it would be there every time
        worst = []
        for trial in range(3):
            big[0] = False
            once()
            kept()
            leafs.clear()
            gc.collect()
            tracemalloc.start()
            try:
                m0 = tracemalloc.get_traced_memory()[0]
                big[0] = True
                once()
                big[0] = False
                kept()
                leafs.clear()
                gc.collect()
                worst.append(tracemalloc.get_traced_memory()[0] - m0)
            finally:
                tracemalloc.stop()
            if worst[-1] < 6000:
                break
        ctx.hit("big queries dropped")
        ctx.peak("bytes left of a big query", min(worst))
        if min(worst) > 6000:
            ctx.violation(f"mode {mode!r}: {worst} bytes are left of a query of more than 12000 characters whose results are dropped")
            return
    if top:
        ctx.violation(f"mode {mode!r}: {m1 - m0} bytes more after {n} further queries of the same kind, mostly from {[str(s) for s in top]}")
