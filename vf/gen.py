"""Workload generators (imports nothing from the code under test).

`Gen(rng)` makes well-formed queries together with ground truth that does not
come from the reference parser: the abstract tree is drawn first and printed
with random spelling and layout.  `mutate`, `soup`, `noise` make hostile texts.
"""
import copy
import unicodedata

from . import words
from .ref import WS, N

KEYWORDS = ["within", "sentence", "s", "utterance", "u", "paragraph", "p", "turn", "t", "text", "session",
            "i", "I", "c", "C", "l", "d", "lid", "iI", "ccc", "Cl"]
LAYERS = ["text", "lemma", "pos", "orth", "norm", "phonetic"]
OTHERID = ["word", "x-foo", "x-a-1", "x", "X-foo", "foo", "Text", "POS", "lemmas", "post", "a", "b", "A1", "a1-b", "a--b", "z9",
           "withinn", "sentences", "texts", "ic1", "x-", "words", "xy-z", "wordx", "x-1"]
OTHERID = [x for x in OTHERID if not x.endswith("-")]
UD = "ADJ ADV INTJ NOUN PROPN VERB ADP AUX CCONJ DET NUM PART PRON SCONJ PUNCT SYM X".split()
WORDS = ["a", "b", "dog", "Dog", "walk", "Apfelsaft", "gr\u00fcn", "gru\u0308n", "\u00c5ngstrom", "A\u030angstrom", "\u212bngstrom",
         "\ufb01n", "stra\u00dfe", "\u0130stanbul", "\u4e2d\u6587", "\U0001d518", "\U0001f600", "e\u0301\u0327", "\u1e9b\u0323",
         "\uac00", "\u1100\u1161", "N", "noun", "NN", "VBZ", "within", "and", "12", "0", "a b", " lead", "trail ", "  ", "a  b",
         "\u00a0", "\u3000x", "x\u200by", "\ufeff", "tab\there", "line\nbreak", "cr\rlf\r\n", "\u2028", "\x00", "\x7f", "(", ")", "[a]", "{1,2}",
         "a|b", "a&b", "!a", "a/i", "a=b", "#", "%", "<>", "a.b", "^a$", "a*b+c?", "~x", "-", "a-b", "@", "//", "''", "\ud800", "\udc00x",
         "!=", "a!=b", "=", "==", "|", "&", "!", "*", "+", "?", "/", ":", "a:b", ",", "{", "}", "{3}", "]", "[", "[]", "/i", "/I", "<EOF>", " within s", ") within text", "x-a",
         '[a="b"]', "[a!='b' & !c:d=\"e\"/i]{2,3} within s", '"a" | ("b" \'c\')+', "(x | y)", "{2,", "}{", "regexp", "text", "s", "None", "0"]
SCOPE_WORDS = ["sentence", "s", "utterance", "u", "paragraph", "p", "turn", "t", "text", "session"]
SCOPE = {"sentence": "Sentence", "s": "Sentence", "utterance": "Utterance", "u": "Utterance", "paragraph": "Paragraph",
         "p": "Paragraph", "turn": "Turn", "t": "Turn", "text": "Text", "session": "Session"}
FLAGSETS = ["i", "I", "c", "C", "l", "d", "id", "di", "Id", "dI", "cd", "Cd", "ic", "ci", "IC", "ll", "dd", "iid", "icd", "CIdd", "dic", "ddd"]
BADFLAGS = ["iI", "Ic", "cC", "li", "ld", "lC", "Cl", "dl", "idI", "lll" "i", "icI", "dCi"]
FLAGMAP = {"i": "case-insensitive", "c": "case-insensitive", "I": "case-sensitive", "C": "case-sensitive",
           "l": "literal-matching", "d": "ignore-diacritics"}
CPS = [0x41, 0x61, 0x30, 0x20, 0x0A, 0x09, 0x22, 0x27, 0x5C, 0x2E, 0x5B, 0x5D, 0x7B, 0x7D, 0xE4, 0xFF, 0x100, 0x301, 0x308, 0x30A, 0x338, 0x1100,
       0x1161, 0x11A8, 0x212B, 0x2126, 0x1E9B, 0x323, 0x4E2D, 0xFB01, 0xFFFD, 0xFFFF, 0x10000, 0x1D518, 0x1F600, 0x10FFFF, 0xD800, 0xDFFF, 0x00, 0x7F, 0x85, 0xA0]


class Gen:
    def __init__(self, rng, *, hostile=True, maxnot=4):
        self.r = rng
        self.hostile = hostile
        self.maxnot = maxnot

    # -- lexical ------------------------------------------------------------
    def ident(self):
        r = self.r
        x = r.random()
        if words.IDENTS and r.random() < 0.08:
            return words.ident(r)
        n = words.INTS and r.random() < 0.05 and words.size(r, 3000)
        if n:
            return "".join(r.choice("abcxyzABCXYZ") for _ in range(n))
        if x < 0.35:
            return r.choice(LAYERS)
        if x < 0.60:
            return r.choice(KEYWORDS)
        if x < 0.92:
            return r.choice(OTHERID)
        n = r.choice([2, 3, 5, 9, 40, 300] if self.hostile else [2, 3, 5])
        al = "abcxyzABCXYZ"
        return r.choice(al) + "".join(r.choice(al + "0189-") for _ in range(n - 2)) + r.choice(al + "019")

    def literal(self):
        """(raw, decoded-before-normalisation)"""
        r = self.r
        q = r.choice("\"\"'")
        x = r.random()
        if x < 0.05:
            k = 0
        elif x < 0.75:
            k = r.randint(1, 2)
        elif x < 0.985 or not self.hostile:
            k = r.randint(3, 8)
        else:
            k = r.choice([40, 130, 300])
        n = words.INTS and r.random() < 0.06 and words.size(r, 9000)
        if n:
            # this many characters, raw (most have one, and the last piece is cut to fit)
            w = "".join(r.choice("abc \u00e4") for _ in range(n))
            a, b = self.piece(q)
            w = w[len(a):] if len(a) <= n and r.random() < 0.5 else w
            return (q + w + q, w) if len(w) == n else (q + a + w + q, b + w)
        raw, dec = [], []
        for _ in range(k):
            a, b = self.piece(q)
            raw.append(a)
            dec.append(b)
        return q + "".join(raw) + q, "".join(dec)

    def piece(self, q):
        r = self.r
        x = r.random()
        if words.STRINGS and r.random() < 0.08:
            w = words.string(r)
        elif words.INTS and r.random() < 0.06:
            w = chr(words.size(r, 0x10FFFE) or 97)
        elif x < 0.10:
            w = r.choice(UD)
        elif x < 0.62:
            w = r.choice(WORDS)
        elif x < 0.66:
            w = chr(r.choice([r.randrange(0x20, 0x7F), r.randrange(0xA0, 0x2000), r.randrange(0x10000, 0x11000), r.randrange(0x300, 0x370)]))
        elif x < 0.80:
            e = r.choice("\\'\"nt")
            return "\\" + e, {"n": "\n", "t": "\t"}.get(e, e)
        elif x < 0.92:
            e = r.choice(".^$*+?(){}[]|")
            return "\\" + e, "\\" + e
        else:
            cp = r.choice(CPS)
            kinds = ["U"] + (["u"] if cp <= 0xFFFF else []) + (["x"] if cp <= 0xFF else [])
            k = r.choice(kinds)
            h = f"{cp:0{ {'x': 2, 'u': 4, 'U': 8}[k]}x}"
            h = "".join(r.choice([c.upper(), c.lower()]) for c in h)
            return "\\" + k + h, chr(cp)
        w = w.replace("\\", "").replace(q, "")
        return w, w

    def quantity(self):
        """(text tokens, min, max)"""
        r = self.r
        x = r.random()
        if x < 0.55:
            return [], 1, 1
        if x < 0.62:
            return ["*"], 0, -1
        if x < 0.69:
            return ["+"], 1, -1
        if x < 0.76:
            return ["?"], 0, 1
        n = words.INTS and r.random() < 0.15 and words.size(r, 10**30)
        if n and n < 3000 and r.random() < 0.3:
            n = 10**(n - 1) + r.randrange(10**min(n - 1, 20))  # so many digits
        big = [n] if n else [0, 0, 1, 1, 2, 3, 5, 7, 9, 10, 11, 12, 19, 99, 100, 101, 255, 256, 257, 1000, 2**31 - 1, 2**31, 2**63, 10**25]
        a, b = sorted((r.choice(big), r.choice(big + [0, 1, 2, 10**6] if n else big)))

        def num(n):
            return "0" * r.choice([0, 0, 0, 0, 1, 3]) + str(n)

        y = r.random()
        if y < 0.2:
            return ["{", num(a), "}"], a, a
        if y < 0.4:
            return ["{", num(a), ",", "}"], a, -1
        if y < 0.6:
            return ["{", ",", num(b), "}"], 0, b
        return ["{", num(a), ",", num(b), "}"], a, b

    # -- trees --------------------------------------------------------------
    def again(self, kids):
        """now and then one part is an exact copy of an earlier one (equal parts are still separate parts)"""
        r = self.r
        if len(kids) > 1 and r.random() < 0.15:
            i, j = sorted(r.sample(range(len(kids)), 2))
            if r.random() < 0.4:
                j = i + 1
            kids[j] = copy.deepcopy(kids[i])
        return kids

    # internal form: N with at["_raw"] for leaves
    def regexp(self):
        raw, dec = self.literal()
        fl = self.r.choice(FLAGSETS) if self.r.random() < 0.35 else None
        return raw, dec, fl

    def basic(self):
        r = self.r
        raw, dec, fl = self.regexp()
        q = self.ident() if r.random() < 0.35 else None
        return N("Expression", {"qualifier": q, "identifier": self.ident(), "operator": r.choice(["Eq", "Eq", "Ne"]),
                                "raw": raw, "dec": dec, "fl": fl, "implicit": False})

    def implicit(self):
        raw, dec, fl = self.regexp()
        return N("Expression", {"qualifier": None, "identifier": None, "operator": None, "raw": raw, "dec": dec, "fl": fl, "implicit": True})

    def expr(self, budget, depth=0):
        r = self.r
        x = r.random()
        if budget <= 1 or depth > 5:
            return self.unary(1, depth)
        if x < 0.35:
            k = r.randint(2, min(budget, 5))
            return N("ExpressionOr", {}, self.again([self.and_(max(1, budget // k), depth) for _ in range(k)]))
        if x < 0.85:
            return self.and_(budget, depth)
        return self.unary(budget, depth)

    def and_(self, budget, depth):
        if budget <= 1 or self.r.random() < 0.3:
            return self.unary(budget, depth)
        k = self.r.randint(2, min(budget, 5))
        return N("ExpressionAnd", {}, self.again([self.unary(max(1, budget // k), depth) for _ in range(k)]))

    def unary(self, budget, depth):
        r = self.r
        if self.nots > 0 and r.random() < 0.18:
            self.nots -= 1
            return N("ExpressionNot", {}, [self.unary(budget, depth + 1)])
        if budget > 1 and depth < 5 and r.random() < 0.7 or r.random() < 0.06:
            return N("ExpressionGroup", {}, [self.expr(budget, depth + 1)])
        return self.basic()

    def segment(self, budget):
        r = self.r
        x = r.random()
        qt, mn, mx = self.quantity()
        if x < 0.45:
            e = self.implicit()
        elif x < 0.55:
            e = N("ExpressionWildcard")
        else:
            self.nots = r.choice([0, 1, 1, 2, 3, self.maxnot])
            e = self.expr(r.choice([1, 1, 1, 2, 3, 4, min(6, max(1, budget))]))
        return N("QuerySegment", {"min": mn, "max": mx, "qt": qt}, [e])

    def group(self, budget, depth):
        qt, mn, mx = self.quantity()
        c = self.disj(budget, depth + 1) if self.r.random() < 0.5 else self.seq(budget, depth + 1, 1)
        return N("QueryGroup", {"min": mn, "max": mx, "qt": qt}, [c])

    def item(self, budget, depth):
        if budget > 1 and depth < 6 and self.r.random() < 0.45 or depth < 6 and self.r.random() < 0.08:
            return self.group(budget - 1, depth)
        return self.segment(budget)

    def seq(self, budget, depth, least):
        k = max(least, self.r.randint(1, max(1, min(budget, 4))))
        return N("QuerySequence", {}, self.again([self.item(max(1, budget // k), depth) for _ in range(k)]))

    def disj(self, budget, depth):
        k = self.r.randint(2, max(2, min(budget, 5)))
        ops = []
        for _ in range(k):
            b = max(1, budget // k)
            x = self.r.random()
            if x < 0.5:
                ops.append(self.segment(b))
            elif x < 0.75:
                ops.append(self.seq(max(2, b), depth, 2))
            else:
                ops.append(N("QuerySequence", {}, [self.group(b, depth)]))
        return N("QueryDisjunction", {}, self.again(ops))

    def main(self, budget):
        x = self.r.random()
        if x < 0.30:
            return self.segment(budget)
        if x < 0.45:
            return self.group(budget, 0)
        if x < 0.75:
            return self.seq(max(2, budget), 0, 2)
        return self.disj(budget, 0)

    def tree(self, budget=None):
        r = self.r
        if budget is None:
            budget = r.choice([1, 1, 2, 2, 3, 4, 6, 8, 12])
        x = r.random()
        if self.hostile and x < (0.06 if words.INTS else 0.03):
            t = self.special()
        else:
            t = self.main(budget)
        if r.random() < 0.25:
            t = N("QueryWithWithin", {}, [t, N("SimpleWithin", {"word": r.choice(SCOPE_WORDS)})])
        return t

    def special(self):
        """unusual magnitudes: wide and deep trees"""
        r = self.r
        k = r.choice(["wideseq", "widedisj", "wideor", "wideand", "deepgroup", "deepegroup"])
        w = r.choice([17, 33, 40, 65, 70, 130, 260])
        if words.INTS and r.random() < 0.5:
            w = words.size(r, 600) or w
        seg = lambda: N("QuerySegment", {"min": 1, "max": 1, "qt": []}, [self.implicit()])
        one = lambda e: N("QuerySegment", {"min": 1, "max": 1, "qt": []}, [e])
        if k == "wideseq":
            return N("QuerySequence", {}, [seg() for _ in range(w)])
        if k == "widedisj":
            return N("QueryDisjunction", {}, [seg() for _ in range(w)])
        if k == "wideor":
            return one(N("ExpressionOr", {}, [self.basic() for _ in range(min(w, 130))]))
        if k == "wideand":
            return one(N("ExpressionAnd", {}, [self.basic() for _ in range(min(w, 70))]))
        d = r.choice([8, 12, 17, 25, 33])
        if words.INTS and r.random() < 0.5:
            d = words.size(r, 40) or d
        if k == "deepgroup":
            t = N("QuerySequence", {}, [seg()])
            for _ in range(d):
                qt, mn, mx = self.quantity()
                t = N("QuerySequence", {}, [N("QueryGroup", {"min": mn, "max": mx, "qt": qt}, [t])])
            return t.kids[0]
        e = self.basic()
        for _ in range(d):
            e = N("ExpressionGroup", {}, [e])
        return one(e)

    # -- printing -----------------------------------------------------------
    def gap(self, style):
        r = self.r
        if style == "tight":
            return ""
        if style == "plain":
            return r.choice(["", " "])
        x = r.random()
        if x < 0.4:
            return ""
        if x < 0.8:
            return " "
        return "".join(r.choice(WS) for _ in range(r.choice([1, 1, 2, 3, 7])))

    def text(self, t, style=None, cfg=None):
        """print tree t; returns (text, truth N with locations)"""
        r = self.r
        style = style or r.choice(["tight", "plain", "plain", "wild"])
        self.buf, self.pos, self.last = [], 0, ""
        ident = cfg.identifier if cfg else "text"
        oper = cfg.operator if cfg else "Eq"
        form = cfg.form if cfg else "NFC"

        shift = words.INTS and r.random() < 0.1 and words.size(r, 20000)

        def put(tok):
            g = self.gap(style)
            if shift and not self.buf:
                g = r.choice(WS) * shift  # starts exactly here
            if self.last and self.last[-1].isalnum() and tok[0].isalnum() and not g:
                g = " " if style != "wild" else r.choice(WS)
            self.buf.append(g)
            self.pos += len(g)
            s = self.pos
            self.buf.append(tok)
            self.pos += len(tok)
            self.last = tok
            return s

        def rx(n):
            s = put(n.at["raw"])
            if n.at["fl"] is not None:
                put("/")
                put(n.at["fl"])
            return s

        def go(n):
            k = n.kind
            if k == "Expression":
                if n.at["implicit"]:
                    s = rx(n)
                else:
                    if n.at["qualifier"] is not None:
                        s = put(n.at["qualifier"])
                        put(":")
                        put(n.at["identifier"])
                    else:
                        s = put(n.at["identifier"])
                    put("=" if n.at["operator"] == "Eq" else "!=")
                    rx(n)
                v = n.at["dec"]
                if form:
                    v = unicodedata.normalize(form, v)
                fl = None if n.at["fl"] is None else frozenset(FLAGMAP[c] for c in n.at["fl"])
                imp = n.at["implicit"]
                return N(k, {"qualifier": n.at["qualifier"], "identifier": ident if imp else n.at["identifier"],
                             "operator": oper if imp else n.at["operator"], "regex": v, "flags": fl}, (), (s, self.pos))
            if k == "ExpressionWildcard":
                s = put("[")
                put("]")
                return N(k, {}, (), (s, self.pos))
            if k in ("ExpressionOr", "ExpressionAnd", "QueryDisjunction", "QuerySequence"):
                sep = {"ExpressionOr": "|", "ExpressionAnd": "&", "QueryDisjunction": "|", "QuerySequence": None}[k]
                kids = [go(n.kids[0])]
                for c in n.kids[1:]:
                    if sep:
                        put(sep)
                    kids.append(go(c))
                return N(k, {}, kids, (start(kids[0]), self.pos))
            if k == "ExpressionNot":
                s = put("!")
                kid = go(n.kids[0])
                return N(k, {}, [kid], (s, self.pos))
            if k == "ExpressionGroup":
                s = put("(")
                kid = go(n.kids[0])
                put(")")
                return N(k, {}, [kid], (s, self.pos))
            if k in ("QueryGroup", "QuerySegment"):
                e = n.kids[0]
                if k == "QueryGroup":
                    s = put("(")
                    kid = go(e)
                    put(")")
                elif e.kind == "ExpressionWildcard" or e.kind == "Expression" and e.at["implicit"]:
                    kid = go(e)
                    s = kid.loc[0]
                else:
                    s = put("[")
                    kid = go(e)
                    put("]")
                for t_ in n.at["qt"]:
                    put(t_)
                return N(k, {"min": n.at["min"], "max": n.at["max"]}, [kid], (s, self.pos))
            if k == "QueryWithWithin":
                q = go(n.kids[0])
                put("within")
                w = n.kids[1].at["word"]
                s = put(w)
                wn = N("SimpleWithin", {"scope": SCOPE[w]}, (), (s, self.pos))
                return N(k, {}, [q, wn], (q.loc[0], self.pos))
            raise AssertionError(k)

        def start(n):
            return n.loc[0]

        truth = go(t)
        tail = self.gap(style)
        self.buf.append(tail)
        text = "".join(self.buf)
        n = words.INTS and r.random() < 0.1 and words.size(r, 20000)
        if n and n > len(text):
            text += r.choice(WS) * (n - len(text))  # exactly this long
        return text, truth

    def query(self, budget=None, style=None, cfg=None):
        return self.text(self.tree(budget), style, cfg)


VOCAB = ["(", ")", "[", "]", "|", "&", "!", "/", "{", "}", "+", "*", "?", ",", "=", "!=", ":", "within", "s", "text", "sentence", "i", "iI", "lemma",
         "x-a", "1", "0", "23", '"a"', "'b'", '""', "''", '"a\\n"', '"x\\}"', "word", "{1,2}", "{2,1}", "{,3}", "{3,}", "[]", "\\", "#", "-", '"', "'", " ", "\n"]


def soup(rng, n=None):
    n = n or words.INTS and rng.random() < 0.1 and words.size(rng, 60) or rng.choice([1, 2, 3, 4, 5, 6, 8, 12])
    sep = rng.choice(["", " ", " ", "\n"])
    out, run = [], 0
    for _ in range(n):
        v = rng.choice(VOCAB)
        if v == "!":
            run += 1
            if run > 4:
                continue
        out.append(v)
    return sep.join(out)


SHAPES = ["query_simple", "seq"]


def noise(rng):
    n = rng.choice([0, 1, 1, 2, 3, 5, 10, 30])
    x = rng.random()
    if words.INTS and x < 0.15:
        n = words.size(rng, 5000) or n
        return "".join(rng.choice([chr(words.size(rng, 0x10FFFE) or 97), rng.choice("ab \"'")]) for _ in range(n if rng.random() < 0.5 else 3))
    if x < 0.3:
        return "".join(chr(rng.randrange(0x20, 0x7F)) for _ in range(n))
    if x < 0.5:
        return "".join(rng.choice(WS) for _ in range(n))
    if x < 0.8:
        return "".join(rng.choice("()[]{}|&!/=:+*?,\"'\\ within12ab") for _ in range(n))
    return "".join(chr(rng.choice([rng.randrange(0, 0x300), rng.randrange(0x2000, 0x3100), rng.randrange(0xD800, 0xE000),
                                   rng.randrange(0x10000, 0x110000)])) for _ in range(n))


def mutate(rng, s):
    k = rng.choice([1, 1, 1, 2, 3])
    for _ in range(k):
        n = len(s)
        i = rng.randrange(n + 1)
        op = rng.randrange(9)
        if op == 0 and n:
            s = s[:i] + s[i + 1:]
        elif op == 1:
            s = s[:i] + rng.choice("()[]{}|&!/=:+*?,\"'\\ \n#-1a\u00e4\u2003") + s[i:]
        elif op == 2:
            s = s[:i] + (words.string(rng) if words.STRINGS and rng.random() < 0.25 else rng.choice(VOCAB)) + s[i:]
        elif op == 3 and n:
            j = min(n, i + rng.choice([1, 2, 4, 8]))
            s = s[:i] + s[j:]
        elif op == 4 and n:
            j = min(n, i + rng.choice([1, 2, 4, 8, 20]))
            s = s[:j] + s[i:j] + s[j:]
        elif op == 5:
            s = s[:i]
        elif op == 6:
            s = s[i:]
        elif op == 7 and n > 1:
            i = rng.randrange(n - 1)
            s = s[:i] + s[i + 1] + s[i] + s[i + 2:]
        elif op == 8 and n:
            i = rng.randrange(n)
            s = s[:i] + rng.choice("()[]{}|&!/=:+*?,\"'\\ wiXs0") + s[i + 1:]
    return s


def nots_ok(s):
    """keep hostile texts clear of the exponential NOT chains (known finding of property C28)"""
    return s.count("!") <= 6


def hostile(rng):
    for _ in range(50):
        x = rng.random()
        if x < 0.55:
            g = Gen(rng, hostile=False)
            s = g.query()[0]
            if words.STRINGS and rng.random() < (0.2 if words.NEW_STRINGS else 0.02):
                i = rng.choice([0, 0, len(s), rng.randrange(len(s) + 1)])
                w = words.string(rng)
                s = s[:i] + (w.lower() if rng.random() < 0.1 else w) + rng.choice(["", "", " "]) + s[i:]
            else:
                s = mutate(rng, s)
        elif x < 0.60:
            g = Gen(rng, hostile=False)
            s = bad_semantics(rng, g)
        elif x < 0.9:
            s = soup(rng)
        else:
            s = noise(rng)
        if nots_ok(s):
            return s
    return ""


def bad_semantics(rng, g):
    """grammatical queries that must be rejected for their meaning (or almost)"""
    x = rng.randrange(4)
    t = g.tree()
    text, _ = g.text(t)
    q = rng.choice("\"'")
    if x == 0:
        a, b = rng.choice([1, 2, 9, 10, 99, 100, 2**31]), rng.choice([0, 1, 2, 5, 9, 10, 11])
        bad = f"{q}a{q}{{{a},{b}}}" if rng.random() < 0.6 else f"({q}a{q}){{{a},{b}}}"
    elif x == 1:
        bad = f"{q}a{q}/{rng.choice(BADFLAGS)}" if rng.random() < 0.5 else f"[{g.ident()}={q}a{q}/{rng.choice(BADFLAGS)}]"
    elif x == 2:
        cp = rng.choice([0x110000, 0x110001, 0x200000, 0x7FFFFFFF, 0x80000000, 0xFFFFFFFF, 0x10FFFF])
        bad = f"{q}b\\U{cp:08X}c{q}"
    else:
        bad = f"{q}\\{rng.choice('abcrfvz0-/& ]}')}{q}"
    if " within " in text:
        return bad + text
    return rng.choice([bad, text + bad, bad + text, f"({bad})", text + "|" + bad])
