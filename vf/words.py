"""A fuzzing dictionary: constants of the code under test that are worth feeding back to it.

Only the choice of inputs depends on it, never a verdict.  Numbers that the ordinary workload covers anyway are left out."""
import ast
import os
import re
import types

STRINGS, IDENTS, INTS = [], [], []
NEW_STRINGS, NEW_IDENTS = [], []  # not among the constants of the code as it was first seen: tried more often
IDENT = re.compile(r"[A-Za-z]([A-Za-z0-9-]*[A-Za-z0-9])?\Z")


def flat(k):
    if isinstance(k, (tuple, frozenset)):
        for x in k:
            yield from flat(x)
    else:
        yield k


def codes(c):
    yield c
    for k in c.co_consts:
        if isinstance(k, types.CodeType):
            yield from codes(k)


def sample(r, pattern):
    """a string that matches a regular expression (or nearly)"""
    try:
        from re import _parser
        tree = _parser.parse(pattern)
    except Exception:
        return None

    def go(seq):
        out = ""
        for op, av in seq:
            op = str(op)
            if op == "LITERAL":
                out += chr(av)
            elif op == "NOT_LITERAL":
                out += r.choice("abzA0 ")
            elif op == "ANY":
                out += r.choice("abz09 -")
            elif op == "IN":
                out += r.choice([pick(x) for x in av])
            elif op in ("MAX_REPEAT", "MIN_REPEAT", "POSSESSIVE_REPEAT"):
                lo, hi, sub = av
                for _ in range(r.choice([lo, lo, lo + 1, min(int(hi), lo + 4)])):
                    out += go(sub)
            elif op == "SUBPATTERN":
                out += go(av[-1])
            elif op == "BRANCH":
                out += go(r.choice(av[1]))
            elif op == "ATOMIC_GROUP":
                out += go(av)
        return out

    def pick(x):
        op, av = str(x[0]), x[1]
        if op == "LITERAL":
            return chr(av)
        if op == "RANGE":
            return chr(r.randint(*av))
        if op == "CATEGORY":
            return r.choice({"CATEGORY_DIGIT": "059", "CATEGORY_SPACE": " \t\n"}.get(str(av), "aZ_9\u00e4"))
        return r.choice("ab1-")
    try:
        return go(tree)[:400]
    except Exception:
        return None


def load(rng, src):
    """collect the constants of the package below src"""
    base = os.path.join(os.path.dirname(os.path.abspath(__file__)), "words.txt")
    known = set(ast.literal_eval(open(base, encoding="utf-8").read()))
    strs, ints = set(), set()
    pkg = os.path.join(src, "fcsql")
    for f in sorted(os.listdir(pkg)):
        if not f.endswith(".py"):
            continue
        try:
            c = compile(open(os.path.join(pkg, f), encoding="utf-8").read(), f, "exec", dont_inherit=True)
        except (SyntaxError, ValueError, OSError):
            continue
        big = f in ("FCSLexer.py", "FCSParser.py")  # state tables
        for x in codes(c):
            for k in x.co_consts:
                if isinstance(k, (tuple, frozenset)) and big:
                    continue
                for y in flat(k):
                    if isinstance(y, str) and len(y) <= 200:
                        strs.add(y)
                    elif isinstance(y, int) and not isinstance(y, bool) and not big:
                        ints.add(y)
    INTS[:] = sorted(n for n in ints if 8 < n != 16)
    more = set()
    for s in sorted(strs - known):
        if len(s) <= 60 and re.search(r"[\[\]{}()*+?|\\^$.]", s):
            more |= {m for m in (sample(rng, s) for _ in range(4)) if m}
        if 1 < len(s) <= 60 and not s.isalnum():
            more |= set(s.split()) if " " in s else set(s)
    ok = sorted(s for s in strs | more if len(s) <= 60 and s)
    STRINGS[:] = ok
    IDENTS[:] = [s for s in ok if IDENT.match(s)]
    NEW_STRINGS[:] = [s for s in ok if s not in known]
    NEW_IDENTS[:] = [s for s in NEW_STRINGS if IDENT.match(s)]
    for s in list(NEW_IDENTS):  # prefixes and suffixes
        if len(s) < 20:
            NEW_IDENTS.extend([s + "z", "z" + s])
    if any(re.match(r"[A-Za-z][A-Za-z0-9-]*-\Z", s) for s in NEW_STRINGS):
        NEW_IDENTS.extend(s + "q7" for s in NEW_STRINGS if re.match(r"[A-Za-z][A-Za-z0-9-]*-\Z", s))


def string(r):
    return r.choice(NEW_STRINGS if NEW_STRINGS and r.random() < 0.7 else STRINGS)


def ident(r):
    return r.choice(NEW_IDENTS if NEW_IDENTS and r.random() < 0.7 else IDENTS)


def size(r, limit):
    """a size around one of the numbers, or None"""
    c = [n for n in INTS if n <= limit]
    return r.choice(c) + r.choice([-1, 0, 0, 1, 1]) if c else None
