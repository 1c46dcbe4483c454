"""Reference model of FCS-QL 2.0, written from the grammar text (FCSLexer.g4 /
FCSParser.g4) and the documentation only.  It imports nothing from the code
under test and from antlr4.

  lex(text)            maximal-munch tokenizer incl. the resynchronisation points
  Parser(tokens)       ordered-choice (first alternative that completes) parser,
                       yielding a concrete syntax tree (CST)
  build(cst, cfg)      CST -> abstract tree (N) or SemError
  precedence(...)      independent NOT > AND > OR parser for bracket expressions
  render(n), validate_spec(...)   reference printer / reference validator
"""
import re
import sys
import unicodedata

WS = "\t\n\x0b\x0c\r \x85\xa0\u1680\u2000\u2001\u2002\u2003\u2004\u2005\u2006\u2007\u2008\u2009\u200a\u2028\u2029\u202f\u205f\u3000"
SCOPES = {
    "sentence": "Sentence", "s": "Sentence", "utterance": "Utterance", "u": "Utterance",
    "paragraph": "Paragraph", "p": "Paragraph", "turn": "Turn", "t": "Turn",
    "text": "Text", "session": "Session",
}
PUNCT = {
    "(": "L_PAREN", ")": "R_PAREN", "[": "L_SQUARE_BRACKET", "]": "R_SQUARE_BRACKET", "|": "OR", "&": "AND",
    "!": "NOT", "/": "FWD_SLASH", "{": "L_CURLY_BRACKET", "}": "R_CURLY_BRACKET", "+": "Q_ONE_OR_MORE",
    "*": "Q_ZERO_OR_MORE", "?": "Q_ZERO_OR_ONE", ",": "Q_COMMA", "=": "OPERATOR_EQ", ":": "COLON",
}
ESC_SIMPLE = set("\\'\"nt.^$*+?(){}[]|")
HEX = set("0123456789abcdefABCDEF")
_ID = re.compile(r"[a-zA-Z](?:[a-zA-Z0-9\-]*[a-zA-Z0-9])?")
_INT = re.compile(r"[0-9]+")
_FLAGS = re.compile(r"[iIcCld]+\Z")


class Tok:
    __slots__ = ("kind", "text", "start", "stop")

    def __init__(self, kind, text, start):
        self.kind, self.text, self.start, self.stop = kind, text, start, start + len(text)

    def __repr__(self):
        return f"{self.kind}:{self.text!r}@{self.start}"


def _scan_string(text, i):
    """Return (end, None) of the quoted string at i, or (None, fail_index)."""
    q = text[i]
    n = len(text)
    j = i + 1
    while j < n:
        c = text[j]
        if c == q:
            return j + 1, None
        if c == "\\":
            j += 1
            if j >= n:
                return None, j
            e = text[j]
            if e in ESC_SIMPLE:
                j += 1
            elif e in "xuU":
                for _ in range({"x": 2, "u": 4, "U": 8}[e]):
                    j += 1
                    if j >= n or text[j] not in HEX:
                        return None, j
                j += 1
            else:
                return None, j
        else:
            j += 1
    return None, j


def lex(text):
    toks, errs = [], []
    i, n = 0, len(text)
    while i < n:
        c = text[i]
        if c in WS:
            i += 1
            continue
        if c == "!" and text[i + 1:i + 2] == "=":
            toks.append(Tok("OPERATOR_NE", "!=", i))
            i += 2
            continue
        if c in PUNCT:
            toks.append(Tok(PUNCT[c], c, i))
            i += 1
            continue
        if c in "\"'":
            end, fail = _scan_string(text, i)
            if end is None:
                errs.append(i)
                i = min(fail + 1, n)
            else:
                toks.append(Tok("REGEXP", text[i:end], i))
                i = end
            continue
        m = _ID.match(text, i)
        if m:
            v = m.group()
            if v == "within":
                k = "WITHIN"
            elif v in SCOPES:
                k = "SIMPLE_WITHIN_SCOPE"
            elif _FLAGS.match(v):
                k = "REGEXP_FLAGS"
            else:
                k = "IDENTIFIER"
            toks.append(Tok(k, v, i))
            i = m.end()
            continue
        m = _INT.match(text, i)
        if m:
            toks.append(Tok("INTEGER", m.group(), i))
            i = m.end()
            continue
        errs.append(i)
        i += 1
    return toks, errs


# ---------------------------------------------------------------------------
# ordered-choice parser.  A parser maps a position to an ordered list of
# (end, children) with unique ends: because the continuation only depends on
# the end position, the first derivation per end is the one a "lowest viable
# alternative, greedy loops" parser picks.

IDKINDS = ("IDENTIFIER", "WITHIN", "SIMPLE_WITHIN_SCOPE", "REGEXP_FLAGS")


class C:
    """CST node: rule name or token."""
    __slots__ = ("rule", "kids", "a", "b")

    def __init__(self, rule, kids, a, b):
        self.rule, self.kids, self.a, self.b = rule, kids, a, b

    def first(self, rule):
        for k in self.kids:
            if isinstance(k, C) and k.rule == rule:
                return k
        return None

    def all(self, rule):
        return [k for k in self.kids if isinstance(k, C) and k.rule == rule]

    def toks(self, kind=None):
        return [k for k in self.kids if isinstance(k, Tok) and (kind is None or k.kind == kind)]


def R(name):
    return ("rule", name)


def T(*kinds):
    return ("tok", kinds)


def S(*xs):
    return ("seq", xs)


def A(*xs):
    return ("alt", xs)


def O(x):
    return ("opt", x)


def P1(x):
    return ("plus", x)


GRAMMAR = {
    "query": S(R("main_query"), O(S(T("WITHIN"), R("within_part"))), T("EOF")),
    "main_query": A(R("query_simple"), R("query_group"), R("query_sequence"), R("query_disjunction")),
    "query_disjunction": S(
        A(R("query_simple"), R("query_sequence"), R("query_group")),
        P1(S(T("OR"), A(R("query_simple"), R("query_sequence"), R("query_group")))),
    ),
    "query_sequence": P1(A(R("query_simple"), R("query_group"))),
    "query_group": S(T("L_PAREN"), A(R("query_disjunction"), R("query_sequence")), T("R_PAREN"), O(R("quantifier"))),
    "query_simple": S(A(R("query_implicit"), R("query_segment")), O(R("quantifier"))),
    "quantifier": A(
        T("Q_ONE_OR_MORE"), T("Q_ZERO_OR_MORE"), T("Q_ZERO_OR_ONE"),
        S(T("L_CURLY_BRACKET"),
          A(T("INTEGER"),
            S(O(T("INTEGER")), T("Q_COMMA"), T("INTEGER")),
            S(T("INTEGER"), T("Q_COMMA"), O(T("INTEGER")))),
          T("R_CURLY_BRACKET")),
    ),
    "query_implicit": R("regexp"),
    "query_segment": S(T("L_SQUARE_BRACKET"), O(R("expression")), T("R_SQUARE_BRACKET")),
    "within_part": R("within_part_simple"),
    "within_part_simple": T("SIMPLE_WITHIN_SCOPE"),
    "expression": A(R("expression_basic"), R("expression_group"), R("expression_or"), R("expression_and"), R("expression_not")),
    "expression_or": S(
        A(R("expression_basic"), R("expression_group"), R("expression_and"), R("expression_not")),
        P1(S(T("OR"), A(R("expression_basic"), R("expression_group"), R("expression_and"), R("expression_not")))),
    ),
    "expression_and": S(
        A(R("expression_basic"), R("expression_group"), R("expression_not")),
        P1(S(T("AND"), A(R("expression_basic"), R("expression_group"), R("expression_or"), R("expression_not")))),
    ),
    "expression_group": S(
        T("L_PAREN"),
        A(R("expression_basic"), R("expression_group"), R("expression_or"), R("expression_and"), R("expression_not")),
        T("R_PAREN"),
    ),
    "expression_not": S(
        T("NOT"),
        A(R("expression_basic"), R("expression_group"), R("expression_not"), R("expression_or"), R("expression_and")),
    ),
    "expression_basic": S(R("attribute"), A(T("OPERATOR_EQ"), T("OPERATOR_NE")), R("regexp")),
    "attribute": S(O(S(R("qualifier"), T("COLON"))), R("identifier")),
    "qualifier": T(*IDKINDS),
    "identifier": T(*IDKINDS),
    "regexp": S(R("regexp_pattern"), O(S(T("FWD_SLASH"), R("regexp_flag")))),
    "regexp_pattern": T("REGEXP"),
    "regexp_flag": T("REGEXP_FLAGS"),
}


class Parser:
    def __init__(self, toks):
        self.toks = toks
        self.memo = {}
        self.far = 0  # index of the furthest token any derivation wanted to consume
        self.n = len(toks)

    def rule(self, name, i):
        key = (name, i)
        r = self.memo.get(key)
        if r is None:
            r = [(e, C(name, kids, i, e)) for e, kids in self.run(GRAMMAR[name], i)]
            self.memo[key] = r
        return r

    def run(self, g, i):
        """ordered list of (end, [children])"""
        k = g[0]
        if k == "tok":
            if i < self.n:
                if self.toks[i].kind in g[1]:
                    return [(i + 1, [self.toks[i]])]
            elif i == self.n and "EOF" in g[1]:
                return [(i + 1, [Tok("EOF", "", -1)])]
            if i > self.far:
                self.far = i
            return []
        if k == "rule":
            return [(e, [c]) for e, c in self.rule(g[1], i)]
        if k == "seq":
            out, seen = [], set()

            def go(idx, pos, kids):
                if idx == len(g[1]):
                    if pos not in seen:
                        seen.add(pos)
                        out.append((pos, kids))
                    return
                if (idx, pos) in visited:
                    return
                visited.add((idx, pos))
                for e, ks in self.run(g[1][idx], pos):
                    go(idx + 1, e, kids + ks)

            visited = set()
            go(0, i, [])
            return out
        if k == "alt":
            out, seen = [], set()
            for x in g[1]:
                for e, ks in self.run(x, i):
                    if e not in seen:
                        seen.add(e)
                        out.append((e, ks))
            return out
        if k == "opt":
            out = list(self.run(g[1], i))
            if all(e != i for e, _ in out):
                out.append((i, []))
            return out
        if k == "plus":
            # greedy: continue before stopping; iterative DFS (flat lists get long)
            out, seen, visited = [], set(), set()
            stack = [(i, [], False)]
            # frames: (pos, kids, emit) ; emit=True means "stop here" alternative
            while stack:
                pos, kids, emit = stack.pop()
                if emit:
                    if pos not in seen:
                        seen.add(pos)
                        out.append((pos, _unlink(kids)))
                    continue
                if pos in visited:
                    continue
                visited.add(pos)
                succ = self.run(g[1], pos)
                todo = []
                for e, ks in succ:
                    nk = (kids, ks)
                    todo.append((e, nk, False))
                    todo.append((e, nk, True))
                stack.extend(reversed(todo))
            return out
        raise AssertionError(k)

    def parse(self):
        for e, c in self.rule("query", 0):
            if e == self.n + 1:
                return c
        return None


def _unlink(kids):
    parts = []
    while kids:
        kids, ks = kids
        parts.append(ks)
    out = []
    for ks in reversed(parts):
        out.extend(ks)
    return out


# ---------------------------------------------------------------------------
# abstract tree


class N:
    __slots__ = ("kind", "at", "kids", "loc")

    def __init__(self, kind, at=None, kids=(), loc=None):
        self.kind, self.at, self.kids, self.loc = kind, dict(at or {}), list(kids), loc

    def walk(self):
        st = [self]
        while st:
            n = st.pop()
            yield n
            st.extend(reversed(n.kids))

    def key(self, loc=True):
        return (self.kind, tuple(sorted((k, repr(v)) for k, v in self.at.items())), self.loc if loc else None,
                tuple(k.key(loc) for k in self.kids))

    def __repr__(self):
        a = " ".join(f"{k}={v!r}" for k, v in self.at.items())
        return f"({self.kind} {a}" + "".join(" " + repr(k) for k in self.kids) + ")" + (f"@{self.loc[0]}:{self.loc[1]}" if self.loc else "")


def diff(a, b, loc=True, path="root"):
    """first difference of two N trees as text, or None"""
    if a.kind != b.kind:
        return f"{path}: expected {a.kind}, got {b.kind}"
    if a.at != b.at:
        for k in sorted(set(a.at) | set(b.at)):
            if a.at.get(k) != b.at.get(k):
                return f"{path}({a.kind}).{k}: expected {a.at.get(k)!r}, got {b.at.get(k)!r}"
    if loc and a.loc != b.loc:
        return f"{path}({a.kind}): expected location {a.loc}, got {b.loc}"
    if len(a.kids) != len(b.kids):
        return f"{path}({a.kind}): expected {len(a.kids)} children, got {len(b.kids)}"
    for i, (x, y) in enumerate(zip(a.kids, b.kids)):
        d = diff(x, y, loc, f"{path}.{i}")
        if d:
            return d
    return None


class SemError(Exception):
    pass


class Limit(Exception):
    """query beyond a documented resource limit of the host (digits of an integer)"""


class Cfg:
    def __init__(self, identifier="text", operator="Eq", form="NFC"):
        self.identifier, self.operator, self.form = identifier, operator, form


def decode(raw, form):
    body = raw[1:-1]
    out = []
    i = 0
    while i < len(body):
        c = body[i]
        if c != "\\":
            out.append(c)
            i += 1
            continue
        e = body[i + 1]
        if e in "\\'\"":
            out.append(e)
            i += 2
        elif e == "n":
            out.append("\n")
            i += 2
        elif e == "t":
            out.append("\t")
            i += 2
        elif e in "xuU":
            k = {"x": 2, "u": 4, "U": 8}[e]
            cp = int(body[i + 2:i + 2 + k], 16)
            if cp > 0x10FFFF:
                raise SemError("codepoint")
            out.append(chr(cp))
            i += 2 + k
        else:
            out.append("\\" + e)
            i += 2
    s = "".join(out)
    return unicodedata.normalize(form, s) if form else s


FLAG = {"i": "case-insensitive", "c": "case-insensitive", "I": "case-sensitive", "C": "case-sensitive",
        "l": "literal-matching", "d": "ignore-diacritics"}


def flags(raw):
    fs = frozenset(FLAG[c] for c in raw)
    if {"case-insensitive", "case-sensitive"} <= fs:
        raise SemError("flags i/I")
    if "literal-matching" in fs and len(fs) > 1:
        raise SemError("flags l")
    return fs


def quant(c):
    """CST quantifier (or None) -> (min, max)"""
    if c is None:
        return 1, 1
    k = c.kids[0].kind
    if k == "Q_ONE_OR_MORE":
        return 1, -1
    if k == "Q_ZERO_OR_MORE":
        return 0, -1
    if k == "Q_ZERO_OR_ONE":
        return 0, 1
    lo = hi = None
    comma = False
    for t in c.kids[1:-1]:
        if t.kind == "Q_COMMA":
            comma = True
        elif comma:
            hi = t.text
        else:
            lo = t.text
    lim = sys.get_int_max_str_digits()
    for t in (lo, hi):
        if t is not None and lim and len(t) > lim:
            raise Limit(t[:20])
    if not comma:
        return int(lo), int(lo)
    a = int(lo) if lo is not None else 0
    b = int(hi) if hi is not None else -1
    if b != -1 and a > b:
        raise SemError("range")
    return a, b


def build(c, cfg, toks, text_len):
    def loc(x):
        return (toks[x.a].start, toks[min(x.b, len(toks)) - 1].stop)

    def basic(x, rx, at):
        pat = rx.first("regexp_pattern").kids[0].text
        fl = rx.first("regexp_flag")
        at = dict(at)
        at["regex"] = decode(pat, cfg.form)
        at["flags"] = flags(fl.kids[0].text) if fl else None
        return N("Expression", at, (), loc(x))

    def go(x):
        r = x.rule
        if r == "query":
            q = go(x.kids[0])
            w = x.first("within_part")
            if w is None:
                return q
            s = w.kids[0]
            wn = N("SimpleWithin", {"scope": SCOPES[s.kids[0].text]}, (), loc(s))
            return N("QueryWithWithin", {}, [q, wn], (loc(x)[0], wn.loc[1]))
        if r == "main_query" or r == "expression":
            return go(x.kids[0])
        if r in ("query_disjunction", "query_sequence", "expression_or", "expression_and"):
            kind = {"query_disjunction": "QueryDisjunction", "query_sequence": "QuerySequence",
                    "expression_or": "ExpressionOr", "expression_and": "ExpressionAnd"}[r]
            return N(kind, {}, [go(k) for k in x.kids if isinstance(k, C)], loc(x))
        if r == "query_group":
            body = go(x.kids[1])
            mn, mx = quant(x.first("quantifier"))
            return N("QueryGroup", {"min": mn, "max": mx}, [body], loc(x))
        if r == "query_simple":
            body = go(x.kids[0])
            mn, mx = quant(x.first("quantifier"))
            return N("QuerySegment", {"min": mn, "max": mx}, [body], loc(x))
        if r == "query_implicit":
            return basic(x, x.kids[0], {"qualifier": None, "identifier": cfg.identifier, "operator": cfg.operator})
        if r == "query_segment":
            e = x.first("expression")
            if e is None:
                return N("ExpressionWildcard", {}, (), loc(x))
            return go(e)
        if r == "expression_group":
            return N("ExpressionGroup", {}, [go(x.kids[1])], loc(x))
        if r == "expression_not":
            return N("ExpressionNot", {}, [go(x.kids[1])], loc(x))
        if r == "expression_basic":
            a = x.kids[0]
            q = a.first("qualifier")
            at = {"qualifier": q.kids[0].text if q else None,
                  "identifier": a.first("identifier").kids[0].text,
                  "operator": "Eq" if x.kids[1].kind == "OPERATOR_EQ" else "Ne"}
            return basic(x, x.kids[2], at)
        raise AssertionError(r)

    return go(c)


class Verdict:
    __slots__ = ("syntax", "ok", "tree", "cst", "toks", "lexerrs", "far", "why", "limit")


def analyse(text, cfg=None):
    """the reference verdict; recursion head-room is only raised while the reference itself runs"""
    old = sys.getrecursionlimit()
    sys.setrecursionlimit(max(old, 60000))
    try:
        return _analyse(text, cfg or Cfg())
    finally:
        sys.setrecursionlimit(old)


def _analyse(text, cfg):
    v = Verdict()
    v.toks, v.lexerrs = lex(text)
    p = Parser(v.toks)
    v.cst = p.parse()
    v.far = p.far
    v.syntax = v.cst is not None and not v.lexerrs
    v.tree, v.why, v.limit = None, None, False
    v.ok = False
    if not v.syntax:
        v.why = "syntax"
        return v
    try:
        v.tree = build(v.cst, cfg, v.toks, len(text))
        v.ok = True
    except SemError as ex:
        v.why = f"semantic: {ex}"
    except Limit:
        v.why, v.limit = "limit", True
    return v


# ---------------------------------------------------------------------------
# independent boolean precedence: NOT > AND > OR, flat n-ary, explicit groups


def precedence(expr_cst):
    """token list of a bracket expression (CST 'expression') -> nested tuples over operand indexes"""
    ts = []

    def flat(x):
        if x.rule == "expression_basic":
            ts.append(x)
            return
        for k in x.kids:
            if isinstance(k, C):
                flat(k)
            else:
                ts.append(k.kind)

    flat(expr_cst)
    pos = 0
    ctr = 0

    def peek():
        return ts[pos] if pos < len(ts) else None

    def p_or():
        nonlocal pos
        xs = [p_and()]
        while peek() == "OR":
            pos += 1
            xs.append(p_and())
        return xs[0] if len(xs) == 1 else ("ExpressionOr", *xs)

    def p_and():
        nonlocal pos
        xs = [p_not()]
        while peek() == "AND":
            pos += 1
            xs.append(p_not())
        return xs[0] if len(xs) == 1 else ("ExpressionAnd", *xs)

    def p_not():
        nonlocal pos, ctr
        t = peek()
        if t == "NOT":
            pos += 1
            return ("ExpressionNot", p_not())
        if t == "L_PAREN":
            pos += 1
            x = p_or()
            assert peek() == "R_PAREN"
            pos += 1
            return ("ExpressionGroup", x)
        pos += 1
        ctr += 1
        return ctr - 1

    r = p_or()
    assert pos == len(ts)
    return r


def shape(n, ctr=None):
    """N expression tree -> same nested tuples"""
    ctr = ctr if ctr is not None else [0]
    if n.kind == "Expression":
        ctr[0] += 1
        return ctr[0] - 1
    return (n.kind, *[shape(k, ctr) for k in n.kids])


# ---------------------------------------------------------------------------
# reference printer

_LABEL = {"ExpressionWildcard": "Wildcard", "ExpressionGroup": "Group", "ExpressionOr": "Or", "ExpressionAnd": "And",
          "ExpressionNot": "Not"}


def node_type(kind):
    return _LABEL.get(kind, kind)


def render(n):
    out = []
    # iterative to survive deep trees
    def go(n):
        lab = node_type(n.kind)
        if n.kind == "Expression":
            a = n.at
            s = f"({lab} " + (f"{a['qualifier']}:" if a["qualifier"] else "") + f"{a['identifier']} {a['operator']} \""
            s += a["regex"].replace("\n", "\\n").replace("\r", "\\r").replace("\t", "\\t") + '"'
            if a["flags"]:
                s += "/" + "".join(c for c, f in (("i", "case-insensitive"), ("I", "case-sensitive"), ("l", "literal-matching"),
                                                   ("d", "ignore-diacritics")) if f in a["flags"])
            s += ")"
        elif n.kind == "SimpleWithin":
            s = f"({lab} {n.at['scope']})"
        else:
            s = f"({lab}"
            if "min" in n.at:
                for k in ("min", "max"):
                    if n.at[k] != 1:
                        s += f" @{k}={'*' if n.at[k] == -1 else n.at[k]}"
            for k in n.kids:
                s += " " + go(k)
            s += ")"
        if n.loc:
            s += f"@{n.loc[0]}:{n.loc[1]}"
        return s

    return go(n)


# ---------------------------------------------------------------------------
# reference validator (FCS 2.2)

UD17 = "ADJ ADV INTJ NOUN PROPN VERB ADP AUX CCONJ DET NUM PART PRON SCONJ PUNCT SYM X".split()
LAYERS = "text lemma pos orth norm phonetic".split()
_PLAIN = re.compile(r"[^\s\\.^$*+?{}\[\]|()\-#&~]*\Z")
REGEX_SPECIAL = set("()[]{}?*+-|^$\\.&~# \t\n\r\v\f")  # characters re.escape() escapes


def likely_regex(s):
    return any(c in REGEX_SPECIAL for c in s if c != " ")


def validate_spec(tree, identifiers=None, qualifiers=None):
    """list of (severity, Expression N, rule) in document order"""
    out = []
    for n in tree.walk():
        if n.kind != "Expression":
            continue
        i, q = n.at["identifier"], n.at["qualifier"]
        if identifiers:
            if i not in identifiers:
                out.append(("error", n, "layer"))
        elif i not in LAYERS:
            if i == "word":
                out.append(("warning", n, "legacy"))
            elif i.startswith("x-"):
                out.append(("warning", n, "custom"))
            else:
                out.append(("error", n, "layer"))
        if q and qualifiers:
            for name, allowed in qualifiers:
                if name == i:
                    break
            else:
                allowed = None
            if allowed is None:
                out.append(("error", n, "noqualifier"))
            elif q not in allowed:
                out.append(("error", n, "qualifier"))
        if i == "pos" and not q:
            if n.at["regex"] not in UD17 and not likely_regex(n.at["regex"]) and not n.at["flags"]:
                out.append(("warning", n, "ud17"))
    return out
