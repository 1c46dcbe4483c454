"""C11: any text ends in a query tree or in the one documented exception; nothing is printed."""
import io
import os
import sys
import warnings

from .. import common, gen, ref, sut


class Capture:
    """everything the process writes to its standard streams, at file descriptor level"""

    def __enter__(self):
        self.file = os.open(os.path.join(os.environ["VF_SCRATCH"], f"cap{os.getpid()}"), os.O_RDWR | os.O_CREAT | os.O_TRUNC)
        sys.stdout.flush()
        sys.stderr.flush()
        self.saved = os.dup(1), os.dup(2)
        os.dup2(self.file, 1)
        os.dup2(self.file, 2)
        self.py = sys.stdout, sys.stderr
        self.buf = io.StringIO()
        sys.stdout = sys.stderr = self.buf
        return self

    def __exit__(self, *a):
        sys.stdout, sys.stderr = self.py
        os.dup2(self.saved[0], 1)
        os.dup2(self.saved[1], 2)
        for f in self.saved:
            os.close(f)
        self.out = self.buf.getvalue()
        if os.lseek(self.file, 0, os.SEEK_END):
            os.lseek(self.file, 0, os.SEEK_SET)
            self.out += os.read(self.file, 2000).decode("utf-8", "replace")
        os.close(self.file)


def cases(ctx):
    r = ctx.rng
    g = gen.Gen(r)
    for i in range(ctx.share(ctx.n)):
        yield {"t": g.query()[0] if i % 4 == 0 else gen.hostile(r), "k": "text"}
    for _ in range(ctx.share(ctx.n // 4)):
        yield {"t": gen.bad_semantics(r, g), "k": "meaning"}
    # any single character, any pair of odd characters, inside and outside of a literal
    for cp in ctx.mine(list(range(0, 0x300)) + [r.randrange(0x300, 0x110000) for _ in range(1500)]):
        c = chr(cp)
        yield {"t": r.choice([c, c + c, '"' + c, '"\\' + c, "[" + c, '[a="b' + c + '"]', '"a"' + c, c + '"a"', '"a" within ' + c, '"a"/' + c, '"a"{' + c, "\\" + c]), "k": "char"}
    # odd texts behind every first character
    tails = ["", ".", "..", ".a", "-", "a" * 70, "a" * 64 + ".b", "\ud800", "\x00", "\u0130", "\uff0e", "%", "%s", "{}", "{0}", "\\N{", "xn--a", "xn--\u00df", ":", "//", "://[", "1e999", "0x", "9" * 5000, "=", "\udcff", "\U0010ffff", "\u202e", "(?P<", "[[", "*", "~", "$x", "`", "\n", "\r", "\x1b["]
    for c in ctx.mine([chr(c) for c in range(33, 127)] + [chr(r.randrange(128, 0x3000)) for _ in range(10)]):
        for x in tails:
            yield {"t": c + x, "k": "tail"}
            if r.random() < 0.1:
                yield {"t": r.choice(['"a" ' + c + x, '"' + c + x, "[" + c + x + '="a"]', '"' + x + '"/' + c, '"a" within ' + c + x, '"\\' + c + x + '"']), "k": "tail"}
    # extreme sizes: only the contract, not the verdict, is fixed
    units = [('(', '"a"', ')'), ('[(', 'a="b"', ')]'), ('("a"|', '"b"', ')'), ('("a" ', '"b"', ')*'), ('[a="b"&(', 'c="d"', ')]'), ("", '"a" ', ""), ("", '"a"|', ""), ("", "#", ""), ("", '"', ""), ("", "\\", ""), ("", "(", ""),
             ("", "[a=", ""), ("", '"a"{', ""), ("", "'x'/i ", ""), ("", "within ", ""), ("", "\n", "")]
    sizes = [60, 120, 200, 300, 500] + ([800, 1500, 3000] if ctx.thorough else [])
    for (a, m, b), n in ctx.mine((u, n) for n in sizes for u in units):
        if a in ('("a"|', '[a="b"&(') and n > (200 if ctx.thorough else 60):
            continue
        if a.startswith("["):
            t = "[" + a[1:] * n + m + b[:-1] * n + "]"
        elif a:
            t = a * n + m + b * n
        else:
            t = m * n
        yield {"t": t, "k": "extreme"}
        if n <= 300:
            yield {"t": t[: r.randrange(len(t))], "k": "extreme"}
    for t in ctx.mine(["[" + "&".join(['a="b"'] * 400) + "]", "[" + "|".join(['a="b"'] * 700) + "]", "[" + "|".join(['a="b"&c="d"'] * 64) + "]", '"' + "a" * 100000 + '"', "[" + "a" * 50000 + '="b"]',
                       '"a"{' + "9" * 5000 + "}", '"a"{' + "9" * 4300 + "}", '"a"{1,' + "9" * 9000 + "}", "(" * 1500, "[" + "(" * 1500, "(" * 400 + "\"a\"" + ")" * 400, '"' + "\\U0011ffff" * 50 + '"', '"a"/' + "i" * 5000]):
        yield {"t": t, "k": "extreme"}


def call(f, *a, **kw):
    try:
        return "value", f(*a, **kw)
    except sut.fp.QueryParserException as ex:
        return "rejected", ex
    except (KeyboardInterrupt, SystemExit, GeneratorExit):
        raise
    except BaseException as ex:
        return "escaped", ex


def evaluate(case, ctx):
    t = case["t"]
    m = sut.fcsql
    ctx.hit(case["k"])
    with warnings.catch_warnings(record=True) as ws, Capture() as cap:
        warnings.simplefilter("always")
        k1, x1 = call(m.parse, t)
        p = sut.fp.QueryParser(enableSourceLocations=len(t) % 2 == 0)
        k2, x2 = call(p.parse, t)
        k3, x3 = call(m.can_parse, t)
        k4, x4 = call(p.parse, t)
    ctx.distinct(k1, type(x1).__name__, str(x1)[:60], case["k"])
    if k1 == "rejected" and case["k"] == "text":
        ctx.sample({"text": t[:120], "message": str(x1)[:120]})
    for k, x, what in ((k1, x1, "parse"), (k2, x2, "QueryParser.parse"), (k3, x3, "can_parse"), (k4, x4, "QueryParser.parse (again)")):
        if k == "escaped":
            ctx.violation(f"{what}({t[:200]!r}) raised {type(x).__name__}: {str(x)[:200]}")
            return
        if what != "can_parse":
            if k == "value" and not isinstance(x, sut.fp.QueryNode):
                ctx.violation(f"{what}({t[:200]!r}) returned {x!r:.100}")
            if k == "rejected":
                if not str(x).strip():
                    ctx.violation(f"{what}({t[:200]!r}) rejected without any message")
                ctx.hit("rejections observed")
            else:
                ctx.hit("trees observed")
    if k3 != "value" or not isinstance(x3, bool):
        ctx.violation(f"can_parse({t[:200]!r}) gave {k3} {x3!r:.100}")
    elif case["k"] != "extreme" and not k1 == k2 == k4 == ("value" if x3 else "rejected"):
        ctx.violation(f"answers differ for {t[:200]!r}: parse {k1}, QueryParser {k2}/{k4}, can_parse {x3}")
    if cap.out:
        ctx.violation(f"{t[:200]!r} made the library print {cap.out[:200]!r}")
    if ws:
        ctx.violation(f"{t[:200]!r} caused a warning: {ws[0].message!s:.200}")
