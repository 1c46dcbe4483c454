"""Trees put together by hand through the public constructors (as a program that rewrites queries does)."""
from . import sut, words

fp = sut.fp
FL = list(fp.RegexFlag)


def expr(r):
    if words.STRINGS and r.random() < 0.1:
        n = words.size(r, 2000)
        return fp.Expression(r.choice([None, words.string(r)]), r.choice(["text", "pos", words.string(r)]), r.choice(list(fp.Operator)),
                             r.choice([words.string(r), "a" * n if n else "b"]), r.choice([None, {FL[0]}, {FL[1], FL[3]}, {FL[2]}]))
    q = r.choice([None, None, "", " ", "\t", "a", "x-b", "q q"])
    fl = r.choice([None, set(), {FL[0]}, {FL[1], FL[3]}, {FL[2]}, set(FL)])
    return fp.Expression(q, r.choice(["text", "pos", "word", "x-y", "foo", "", "lemma"]), r.choice(list(fp.Operator)),
                         r.choice(["", "a", "NOUN", "noun", "a.*", "a b", "\n", "\t\r", '"', "\u00e4", "a-b"]), fl)


def num(r, c):
    return words.INTS and r.random() < 0.2 and words.size(r, 10**30) or r.choice(c)


def tree(r, d=4):
    """random tree of any shape the constructors allow"""
    k = r.randrange(14) if d > 0 else r.choice([0, 0, 1, 11])
    sub = lambda: tree(r, d - 1)
    wide = d == 1 and words.INTS and r.random() < 0.1 and words.size(r, 200)
    subs = lambda lo=0: [sub() for _ in range(wide or r.choice([lo, 1, 2, 3, 5]))]
    if k in (0, 13):
        n = expr(r)
    elif k == 1:
        n = r.choice([lambda: fp.ExpressionWildcard(), lambda: fp.ExpressionWildcard(children=subs()), lambda: fp.ExpressionWildcard(child=sub())])() if d > 0 and r.random() < 0.2 else fp.ExpressionWildcard()
    elif k == 2:
        n = fp.ExpressionGroup(sub())
    elif k == 3:
        n = fp.ExpressionNot(sub())
    elif k == 4:
        n = fp.ExpressionAnd(subs())
    elif k == 5:
        n = fp.ExpressionOr(subs())
    elif k == 6:
        n = fp.QueryDisjunction(subs())
    elif k == 7:
        n = fp.QuerySequence(subs())
    elif k == 8:
        n = fp.QueryWithWithin(sub(), r.choice([None, fp.SimpleWithin(r.choice(list(fp.SimpleWithinScope)))]))
    elif k == 9:
        n = fp.QuerySegment(sub(), num(r, [0, 1, 2, 5]), num(r, [-1, 0, 1, 2, 7]))
    elif k == 10:
        n = fp.QueryGroup(sub(), num(r, [0, 1, 2, 5]), num(r, [-1, 0, 1, 2, 7]))
    elif k == 11:
        n = fp.SimpleWithin(r.choice(list(fp.SimpleWithinScope)))
    else:
        n = fp.QuerySequence([sub() for _ in range(r.choice([8, 12, 20]))]) if d == 2 else fp.QuerySequence(subs(1))
    if r.random() < 0.4:
        a = r.randrange(50)
        n.location = fp.SourceLocation(a, a + r.randrange(1, 50))
    return n
