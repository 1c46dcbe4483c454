"""Validator settings and trees for the validation checks."""
from . import gen, hand, ref, sut, words

POOL = ["text", "lemma", "pos", "orth", "norm", "phonetic", "word", "x-a", "x-foo", "foo", "Text", "x", "X-a", "s", "i"]
QUALS = ["a", "b", "x-q", "ud", "stts", "text", "s", "UD", "u", "st", "ex", "q", "tts"]
VALUES = ["NOUN", "noun", "X", "x", "PROPN", "N.*", "ADJ|ADV", "NOUN ", " NOUN", "NOUN VERB", "", "NN", "SYM", "punct", "\\.", "a-b", "a_b", "$.", "PUNC", "ADJ\u0301", "VERB+", "#", "&", "~",
          "a.b", "\u00e4", "\n", "A\tB", "N#", "[N]", "N(", "AU-X", "INTJ", "Intj", "!", "@", "%", ",", ";", "/", "'", "\\n", "a\\\\b", "CCONJ", "SCONJ", "CONJ"]


def pool(r):
    """layer names, some of them from the dictionary"""
    return POOL + [words.ident(r) for _ in range(3)] if words.IDENTS and r.random() < 0.2 else POOL


def conf(r):
    POOL, QUALS = pool(r), globals()["QUALS"]
    if POOL is not globals()["POOL"]:
        QUALS = QUALS + POOL[-2:]
    ids = r.choice([None, None, [], r.sample(POOL, r.choice([1, 2, 4, 8])), ["text"], ["word"], ["x-a", "foo"]])
    quals = r.choice([None, None, [], "rnd", "rnd"])
    if quals == "rnd":
        quals = [[r.choice(POOL), r.choice([None, [], r.sample(QUALS, r.choice([1, 2, 4]))])] for _ in range(r.choice([1, 2, 3, 6]))]
    if r.random() < 0.04:
        # long lists: what matters may stand anywhere in them
        n = words.size(r, 1000) or r.choice([9, 17, 33, 65, 129, 300])
        more = [f"{r.choice('abzxA')}-{i}" for i in range(n)]
        if r.random() < 0.6:
            ids = more + r.sample(POOL, 3)
            r.shuffle(ids) if r.random() < 0.7 else ids.sort()
        else:
            quals = [[i, [f"q{j}" for j in range(r.choice([0, 1, 40]))] + r.sample(QUALS, 1)] for i in more] + [[i, r.choice([None, r.sample(QUALS, 2) + [f"z{j}" for j in range(40)]])] for i in r.sample(POOL, 4)]
            r.shuffle(quals)
    return {"ids": ids, "quals": quals}


def kwargs(c):
    return {"allowed_layer_identifiers": c["ids"], "allowed_layer_qualifiers": None if c["quals"] is None else [tuple(q) for q in c["quals"]]}


def query(r):
    """a query text rich in conditions the specification has an opinion on"""
    names, vals = pool(r), VALUES
    if words.STRINGS and r.random() < (0.4 if words.NEW_STRINGS else 0.1):
        vals = VALUES + [words.string(r) for _ in range(6)]
    QUALS = globals()["QUALS"] + (names[-2:] if names is not POOL else [])
    some = names[-3:] * 3 if names is not POOL else []

    def cond():
        q = r.choice(QUALS) + ":" if r.random() < 0.35 else ""
        i = r.choice(["pos", "pos", "text", "word", "x-a", "foo"] + names + some)
        v = r.choice(vals)
        if vals is not VALUES and r.random() < 0.3:
            w = words.string(r)
            v = r.choice([v, r.choice(gen.UD)])
            v = r.choice([v + w, w + v, v + w.lower()])
        v = v.replace('"', "").replace("\\", "\\\\")
        if r.random() < (0.05 if words.INTS else 0.02):
            n = words.size(r, 3000) or r.choice([31, 63, 64, 65, 100, 127, 128, 129, 256, 400])
            k = r.randrange(3)
            q, i, v = ("q" * n + ":" if k == 0 else q), (r.choice(["foo", "x-"]) + "b" * n if k == 1 else i), ("V" * n if k == 2 else v)
        f = r.choice(["", "", "", "/i", "/l", "/d"])
        return f'{q}{i}{r.choice(["=", "!="])}"{v}"{f}'

    def expr(d):
        x = r.random()
        if d == 0 or x < 0.4:
            return cond()
        if x < 0.6:
            return " & ".join(expr(0) for _ in range(r.randint(2, 4)))
        if x < 0.8:
            return " | ".join(expr(0) for _ in range(r.randint(2, 4)))
        return "(" + expr(d - 1) + ")" + (" & " + cond() if r.random() < 0.5 else "")

    def seg():
        return r.choice(['"a"', "[]", f"[{expr(2)}]", f"[{expr(1)}]", f"[{cond()}]", f"[!{cond()}]"]) + r.choice(["", "", "+", "{2,3}"])

    def q(d):
        k = r.choice([1, 1, 2, 3])
        if words.INTS and d == 2 and r.random() < 0.05:
            k = words.size(r, 300) or k
        items = [seg() if d == 0 or r.random() < 0.7 else "(" + q(d - 1) + ")" for _ in range(k)]
        return r.choice([" ", " | "]).join(items)
    if r.random() < 0.02:
        n = words.size(r, 40) or r.choice([8, 16, 24, 30])
        return r.choice(["", '"z" ', '[foo="q"] | ']) + r.choice(["(" * n + q(0) + ")" * n, "[" + "(" * n + expr(1) + ")" * n + "]", '("k" ' * n + q(0) + ")" * n])
    n = words.INTS and r.random() < 0.06 and words.size(r, 3000)
    return r.choice(["", "", " "] if not n else [" " * n]) + q(2) + r.choice(["", "", " within s", "\n"])


def tree(r):
    """(text or None, tree) through the parser or by hand"""
    if r.random() < 0.8:
        t = query(r)
        c = r.choice([None, None, ref.Cfg("word"), ref.Cfg("pos", "Ne"), ref.Cfg("x-own"), ref.Cfg("foo")])
        loc = r.random() < 0.8
        return t, sut.parser(c, loc).parse(t)
    return None, hand.tree(r, 3)
