"""C26: the low-level entry point: token stream, parse tree, listener and visitor events."""
import contextlib
import io
import re

from antlr4 import CommonTokenStream, InputStream, ParseTreeWalker
from antlr4.Token import Token
from antlr4.tree.Tree import TerminalNode

from .. import common, gen, ref, sut

fcsql = sut.fcsql
RULES = sorted(ref.GRAMMAR)
TOKENS = sorted(set(ref.PUNCT.values()) | {"OPERATOR_NE", "REGEXP", "WITHIN", "SIMPLE_WITHIN_SCOPE",
                                                "REGEXP_FLAGS", "IDENTIFIER", "INTEGER", "EOF"})


def cases(ctx):
    r = ctx.rng
    for i, c in enumerate(common.queries(ctx, ctx.n // 2, cfgs=False)):
        yield {"t": c["t"], "seed": r.randrange(2**32)}
    g = gen.Gen(r)
    for i in range(ctx.share(ctx.n // 2)):
        yield {"t": gen.hostile(r) if i % 4 else gen.bad_semantics(r, g), "seed": r.randrange(2**32)}
    for n in ctx.mine(list(range(2, 41)) + ([70, 130] if ctx.thorough else [])):  # every index of the accessors
        k = r.randrange(3)
        for t in ([" ".join(f'"w{i}"' for i in range(n)), "|".join(f'"w{i}"' for i in range(n))], ["[" + "&".join(f'a="{i}"' for i in range(min(n, 25))) + "]"], ["[" + "|".join(f'a="{i}"' for i in range(n)) + "]"])[k]:
            yield {"t": t, "seed": r.randrange(2**32)}
    for n in ctx.mine([20]):
        yield {"t": "[" + "&".join(f'a="{i}"' for i in range(n)) + "]", "seed": 1}
        yield {"t": "[" + "|".join(f'a="{i}"' for i in range(n)) + "]", "seed": 1}
        yield {"t": "|".join(f'"{i}"' for i in range(n)), "seed": 1}
        yield {"t": " ".join(f'("{i}")' for i in range(n)), "seed": 1}
    for t in ctx.mine(["", " ", "\n", "#", '"a"', "[]", '"a" #', '\n\n "a" \n  )', '"a"{1,}', '"a"{,2}', '"a"{3}', '"a"{1,2}', '("a" | "b")?', '[a:b!="c"/i]',
                       '"a" within s', '"a" within', '[within:text="x"]', '[!(a="1" | !b="2") & c="3"]', '"\U0001f600" #', '"a\n', "'\\x4'", '"\\}"', '[a="\\]"]', common.AND_BLAMED]):
        yield {"t": t, "seed": 7}


def at(t, i):
    """line and column of an offset"""
    return t.count("\n", 0, i) + 1, i - (t.rfind("\n", 0, i) + 1)


def evaluate(case, ctx):
    t = case["t"]
    r = common.derive(case["seed"])
    if not gen.nots_ok(t):
        return
    v = ref.analyse(t)
    # 1. the token stream
    err = io.StringIO()
    with contextlib.redirect_stderr(err), contextlib.redirect_stdout(err):
        lx = fcsql.FCSLexer(InputStream(t))
        ts = CommonTokenStream(lx)
        ts.fill()
    names = fcsql.FCSLexer.symbolicNames
    got = [("EOF" if x.type == Token.EOF else names[x.type], x.text, x.start, x.stop + 1) for x in ts.tokens if x.channel == Token.DEFAULT_CHANNEL]
    want = [(x.kind, x.text, x.start, x.stop) for x in v.toks]
    ctx.hit("tokens observed", len(got))
    if got[:-1] != want or got[-1][0] != "EOF":
        i = next((i for i, (a, b) in enumerate(zip(got, want)) if a != b), min(len(got) - 1, len(want)))
        ctx.violation(f"{t[:200]!r}: token {i} is {got[i:i + 1]}, expected {want[i:i + 1]}")
        return
    for x in ts.tokens[:-1]:
        if (x.line, x.column) != at(t, x.start):
            ctx.violation(f"{t[:200]!r}: token {x.text!r} at line {x.line}:{x.column}, expected {at(t, x.start)}")
            return
    # 2. verdict
    try:
        with contextlib.redirect_stderr(err), contextlib.redirect_stdout(err):
            tree = fcsql.antlr_parse(t)
    except fcsql.SyntaxError as ex:
        ctx.hit("rejected")
        if v.syntax:
            ctx.violation(f"{t[:200]!r}: SyntaxError {ex}, but it matches the grammar")
            return
        m = re.match(r"line (\d+):(\d+) .", str(ex), re.S)
        if not m:
            ctx.violation(f"{t[:200]!r}: message {str(ex)[:200]!r} names no place")
            return
        got = (int(m[1]), int(m[2]))
        ok = []
        if v.lexerrs:
            ok.append(at(t, v.lexerrs[0]))
        if v.cst is None:
            ok.append(at(t, v.toks[v.far].start if v.far < len(v.toks) else len(t)))
        blamed = [x.start for x in v.toks if at(t, x.start) == got]
        if got not in ok and v.cst is None and blamed and common.and_blamed(v, blamed[0]) and re.search(r": ?\d+ (mismatched|extraneous) input '&'", str(ex)):
            ctx.known("and-blamed", f"{t[:200]!r}: error placed at line {got[0]}:{got[1]}, expected one of {ok}")
        elif got not in ok:
            ctx.violation(f"{t[:200]!r}: error placed at line {got[0]}:{got[1]}, expected one of {ok}")
        return
    if not v.syntax:
        ctx.violation(f"{t[:200]!r}: accepted, but it does not match the grammar")
        return
    ctx.hit("accepted")
    if not v.ok:
        ctx.hit("accepted by syntax, not by meaning")
    P = fcsql.FCSParser
    cls = {n: getattr(P, n[0].upper() + n[1:] + "Context") for n in RULES}
    # 3. the parse tree
    order = []

    def compare(n, w, parent, path):
        if isinstance(w, ref.C):
            if type(n) is not cls[w.rule]:
                return f"{path}: expected {w.rule}, got {type(n).__name__}"
            if n.parentCtx is not parent:
                return f"{path}: wrong parent"
            order.append(w.rule)
            kids = list(n.getChildren())
            if len(kids) != len(w.kids):
                return f"{path} ({w.rule}): expected {len(w.kids)} children, got {len(kids)}"
            for i, (a, b) in enumerate(zip(kids, w.kids)):
                d = compare(a, b, n, f"{path}.{i}")
                if d:
                    return d
            if n.getRuleIndex() != P.ruleNames.index(w.rule):
                return f"{path}: rule index"
            if n.start is None or n.start.start != v.toks[w.a].start or w.b <= len(v.toks) and n.stop.stop + 1 != v.toks[w.b - 1].stop:
                return f"{path} ({w.rule}): token range {n.start} .. {n.stop}"
            if n.getText() != "".join(x.text for x in v.toks[w.a:w.b]) + ("<EOF>" if w.b > len(v.toks) else ""):
                return f"{path} ({w.rule}): text {n.getText()[:100]!r}"
            # the accessors of the context give exactly its children of that name
            for name in RULES + TOKENS:
                if name in cls:
                    mine = [a for a, b in zip(kids, w.kids) if isinstance(b, ref.C) and b.rule == name]
                else:
                    mine = [a for a, b in zip(kids, w.kids) if isinstance(b, ref.Tok) and b.kind == name]
                f = getattr(n, name, None)
                if f is None:
                    if mine:
                        return f"{path} ({w.rule}): no accessor {name} for its child"
                    continue
                ctx.hit("accessor reads")
                res = f()
                if isinstance(res, list):
                    if len(res) != len(mine) or any(a is not b for a, b in zip(res, mine)):
                        return f"{path} ({w.rule}).{name}() gives {len(res)} of {len(mine)} children"
                    for i, b in enumerate(mine):
                        if f(i) is not b:
                            return f"{path} ({w.rule}).{name}({i})"
                    if f(len(mine)) is not None:
                        return f"{path} ({w.rule}).{name}({len(mine)}) is not None"
                elif res is not (mine[0] if mine else None):
                    return f"{path} ({w.rule}).{name}() gives {res}"
            return None
        if not isinstance(n, TerminalNode):
            return f"{path}: expected the token {w.kind}, got {type(n).__name__}"
        if n.parentCtx is not parent:
            return f"{path}: wrong parent of a token"
        s = n.symbol
        k = "EOF" if s.type == Token.EOF else P.symbolicNames[s.type]
        if k != w.kind or k != "EOF" and (s.text, s.start) != (w.text, w.start):
            return f"{path}: expected {w!r}, got {k}:{s.text!r}@{s.start}"
        order.append(k)
        return None

    d = compare(tree, v.cst, None, "root")
    if d:
        ctx.violation(f"{t[:200]!r}: parse tree: {d}")
        return
    ctx.hit("contexts observed", len(order))
    ctx.distinct(tuple(order))
    ctx.sample([t[:120], order[:12]])
    # 4. listener events: every rule context entered and left once, like brackets, by its own handlers
    ev = []

    def want_events(n):
        nm = P.ruleNames[n.getRuleIndex()]
        nm = nm[0].upper() + nm[1:]
        yield ("every+", id(n))
        yield ("enter" + nm, id(n))
        for k in n.getChildren():
            if isinstance(k, TerminalNode):
                yield ("token", id(k))
            else:
                yield from want_events(k)
        yield ("exit" + nm, id(n))
        yield ("every-", id(n))

    ns = {}
    for n in RULES:
        for a in ("enter", "exit"):
            h = a + n[0].upper() + n[1:]
            if not callable(getattr(fcsql.FCSParserListener, h, None)):
                ctx.violation(f"the listener has no {h}")
                return
            if r.random() < 0.9:
                ns[h] = (lambda h: lambda self, c: ev.append((h, id(c))))(h)
    ns["enterEveryRule"] = lambda self, c: ev.append(("every+", id(c)))
    ns["exitEveryRule"] = lambda self, c: ev.append(("every-", id(c)))
    ns["visitTerminal"] = lambda self, c: ev.append(("token", id(c)))
    ParseTreeWalker.DEFAULT.walk(type("L", (fcsql.FCSParserListener,), ns)(), tree)
    w = [e for e in want_events(tree) if e[0] in ns or e[0] in ("every+", "every-", "token")]
    ctx.hit("listener events", len(ev))
    if ev != w:
        i = next((i for i, (a, b) in enumerate(zip(ev, w)) if a != b), min(len(ev), len(w)))
        ctx.violation(f"{t[:200]!r}: listener event {i} is {ev[i:i + 1]}, expected {w[i:i + 1]}")
        return
    # 5. visitor: every context reached through the handler of its rule; a handler that does not go on keeps its subtree
    seen, ns = [], {}
    stop = {n for n in RULES if r.random() < 0.15}
    skip = {n for n in RULES if r.random() < 0.15}
    for n in RULES:
        h = "visit" + n[0].upper() + n[1:]
        if not callable(getattr(fcsql.FCSParserVisitor, h, None)):
            ctx.violation(f"the visitor has no {h}")
            return
        if n in skip:
            continue

        def mk(n):
            def f(self, c):
                seen.append((n, id(c)))
                if n not in stop:
                    self.visitChildren(c)
                return (n, id(c))
            return f
        ns[h] = mk(n)

    def want_visits(n):
        nm = P.ruleNames[n.getRuleIndex()]
        if nm not in skip:
            yield (nm, id(n))
            if nm in stop:
                return
        for k in n.getChildren():
            if not isinstance(k, TerminalNode):
                yield from want_visits(k)

    res = type("V", (fcsql.FCSParserVisitor,), ns)().visit(tree)
    w = list(want_visits(tree))
    ctx.hit("visitor events", len(seen))
    if seen != w:
        i = next((i for i, (a, b) in enumerate(zip(seen, w)) if a != b), min(len(seen), len(w)))
        ctx.violation(f"{t[:200]!r}: visit {i} is {seen[i:i + 1]}, expected {w[i:i + 1]}")
    elif "query" not in skip and res != ("query", id(tree)):
        ctx.violation(f"{t[:200]!r}: the result of the handler is lost: {res!r:.100}")
