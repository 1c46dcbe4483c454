"""Shared pieces of the check modules."""
import random

from . import gen, ref, sut

fp = sut.fp
FORMS = ["NFC", "NFC", "NFC", "NFD", "NFKC", "NFKD", None]



def process_state():
    """what a library must leave as it found it: settings of the interpreter and of shared modules"""
    import decimal
    import faulthandler
    import gc
    import locale
    import logging
    import os
    import random
    import signal
    import sys
    import threading
    import warnings
    return {"garbage collector": (gc.isenabled(), gc.get_threshold(), gc.get_debug(), gc.get_freeze_count()), "recursion limit": sys.getrecursionlimit(), "switch interval": sys.getswitchinterval(),
            "digits of an int": sys.get_int_max_str_digits(), "standard streams": (id(sys.stdin), id(sys.stdout), id(sys.stderr)), "hooks": (id(sys.excepthook), id(sys.displayhook), id(sys.unraisablehook),
            id(threading.excepthook)), "tracing": (sys.gettrace(), sys.getprofile()), "signal handlers": tuple(id(signal.getsignal(s)) for s in signal.valid_signals()), "threads": threading.active_count(),
            "warnings": (len(warnings.filters), id(warnings.showwarning)), "logging": (logging.root.level, logging.root.manager.disable, tuple(map(id, logging.root.handlers)), logging.raiseExceptions,
            tuple(logging.getLogger(n).level for n in ("fcsql", "fcsql.parser", "fcsql.validation"))), "environment": tuple(sorted(os.environ.items())), "directory": os.getcwd(),
            "locale": locale.setlocale(locale.LC_ALL), "random": random.getstate()[1][-1] if True else None, "path": tuple(sys.path), "decimal": decimal.getcontext().prec, "faulthandler": faulthandler.is_enabled(),
            "open files": len(os.listdir("/proc/self/fd"))}


def rcfg(rng, plain=0.4):
    if rng.random() < plain:
        return ["text", "Eq", "NFC"]
    return [rng.choice(["text", "lemma", "word", "x-own", "default-id", "pos"]), rng.choice(["Eq", "Ne"]), rng.choice(FORMS)]


def cfg(c):
    return ref.Cfg(*(c or ["text", "Eq", "NFC"]))


def expect(text, c=None):
    return ref.analyse(text, cfg(c))


def attempt(p, text):
    """('ok', tree) or ('rejected', exception)"""
    try:
        return "ok", p.parse(text)
    except fp.QueryParserException as ex:
        return "rejected", ex


def outcome(r):
    """what a caller of parse() sees, as a comparable value"""
    kind, x = r
    return (kind, sut.snap(x).key()) if kind == "ok" else (kind, str(x))


def leaves(n):
    """N of all expressions and wildcards in document order"""
    return [x for x in n.walk() if x.kind in ("Expression", "ExpressionWildcard")]


def features(n):
    """a coarse signature of a tree (kinds and fan-outs), to count distinct observations"""
    return (n.kind, tuple(features(k) for k in n.kids))


def queries(ctx, share=None, *, cfgs=True, hostile=True, **kw):
    """random well-formed queries as cases"""
    g = gen.Gen(ctx.rng, hostile=hostile, **kw)
    for _ in range(ctx.share(share or ctx.n)):
        c = rcfg(ctx.rng) if cfgs else None
        text, _ = g.query(cfg=cfg(c))
        yield {"t": text, "c": c}


def parsed(case, ctx, loc=True):
    """parse a case that the reference accepts; reports and returns None when it is rejected.
    (acceptance itself is property C01: a rejected valid query leaves nothing to judge elsewhere)"""
    v = expect(case["t"], case.get("c"))
    if not v.ok:
        ctx.hit("not valid for the reference")
        return None, None
    p = sut.parser(cfg(case.get("c")), loc)
    kind, x = attempt(p, case["t"])
    if kind != "ok":
        ctx.violation(f"valid query rejected: {x}")
        return None, None
    ctx.hit("trees observed")
    return v, x


class Timer:
    pass


def sized(rng, lo, hi):
    return rng.randint(lo, hi)


def derive(*key):
    return random.Random(repr(key))


AND_BLAMED = '[] | [] [(a="") | d != "n" &'


def and_blamed(v, start):
    """known finding: the error is placed at an & (behind an OR of the same segment) although the text goes wrong
    only later, inside the operand behind that &"""
    i = next((i for i, x in enumerate(v.toks) if x.start == start), None)
    if i is None or v.toks[i].text != "&" or not i < v.far:
        return False
    j = max((k for k in range(i) if v.toks[k].text == "["), default=None)
    if j is None or any(x.text in ("]", "[") for x in v.toks[j + 1:v.far]):
        return False
    return any(x.text == "|" for x in v.toks[j:i]) and not any(x.text in ("&", "|") for x in v.toks[i + 1:min(v.far, i + 2)])
