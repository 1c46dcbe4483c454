"""C32: calls have no side effects: files, processes, threads, network, output, process settings and other modules stay untouched."""
import atexit
import codecs
import faulthandler
import functools
import gc
import locale
import logging
import os
import random
import select
import signal
import sys
import threading
import time
import tracemalloc
import types
import warnings

SETTERS = [(sys, "setrecursionlimit"), (sys, "setswitchinterval"), (sys, "set_int_max_str_digits"), (sys, "setdlopenflags"), (gc, "disable"), (gc, "enable"), (gc, "set_threshold"), (gc, "freeze"),
           (gc, "set_debug"), (locale, "setlocale"), (warnings, "simplefilter"), (warnings, "filterwarnings"), (warnings, "resetwarnings"), (logging, "disable"), (logging, "basicConfig"), (logging, "captureWarnings"),
           (logging, "setLoggerClass"), (logging, "setLogRecordFactory"), (logging, "addLevelName"), (random, "seed"), (random, "random"), (random, "randint"), (random, "choice"), (random, "shuffle"),
           (threading, "settrace"), (threading, "setprofile"), (threading, "stack_size"),
           (time, "sleep"), (select, "select"), (select, "poll"), (os, "umask"), (os, "nice"), (signal, "signal"), (signal, "alarm"), (signal, "setitimer"), (signal, "pthread_sigmask"), (signal, "set_wakeup_fd"), (signal, "siginterrupt"),
           (atexit, "register"), (faulthandler, "enable"), (faulthandler, "disable"), (faulthandler, "dump_traceback_later"), (tracemalloc, "start"), (tracemalloc, "stop"), (codecs, "register"), (codecs, "register_error"),
           (logging, "shutdown"), (sys, "set_coroutine_origin_tracking_depth"), (time, "tzset"), (os, "sched_yield")]
ACTIVE = []  # the list that receives events while a call of the library is observed


def stand_in(mod, name):
    f = getattr(mod, name)

    @functools.wraps(f)
    def g(*a, **kw):
        if ACTIVE:
            ACTIVE[-1].append((f"{mod.__name__}.{name}", repr(a)[:100]))
        return f(*a, **kw)
    setattr(mod, name, g)


for _m, _n in SETTERS:  # before the library is imported, so that it cannot have bound the originals
    if hasattr(_m, _n):
        stand_in(_m, _n)

from .. import common, gen, ref, sut, vconf, words  # noqa: E402
from .c11 import Capture  # noqa: E402

fp, fv, m = sut.fp, sut.fv, sut.fcsql
WATCH = ("open", "os.", "socket.", "subprocess.", "shutil.", "tempfile.", "signal.", "ctypes.", "urllib.", "http.", "ftplib.", "smtplib.", "fcntl.", "mmap.", "resource.", "glob.", "sqlite3.", "syslog.", "pty.",
         "pickle.", "marshal.", "webbrowser.", "msvcrt.", "winreg.")
EXACT = {"exec", "compile", "_thread.start_new_thread", "_thread.start_joinable_thread", "sys.settrace", "sys.setprofile", "sys.addaudithook", "builtins.input", "builtins.breakpoint", "time.sleep", "sys.excepthook",
         "sys.unraisablehook", "code.__new__", "function.__new__", "sys.set_asyncgen_hooks_firstiter", "sys.monitoring.register_callback", "setopencodehook", "object.__setattr__", "type.__setattr__"}


def importing():
    f = sys._getframe(1)
    while f:
        if f.f_code.co_filename.startswith("<frozen importlib"):
            return True
        f = f.f_back
    return False


@functools.lru_cache(None)
def wanted(event):
    return event in EXACT or event.startswith(WATCH)


def hook(event, args):
    if ACTIVE and wanted(event):
        lst = ACTIVE[-1]
        if len(lst) < 50 and not importing():
            lst.append((event, repr(args)[:150]))


sys.addaudithook(hook)
STD = ["builtins", "os", "re", "io", "gc", "logging", "unicodedata", "enum", "typing", "abc", "threading", "warnings", "codecs", "collections", "functools", "string", "time", "random", "json", "dataclasses", "signal",
       "traceback", "posixpath", "itertools", "operator", "copy", "weakref", "contextlib", "inspect", "locale", "types", "numbers"]


def bindings():
    """what the names in other modules, and in the classes of the ANTLR runtime, are bound to"""
    out = {}
    for name, mod in list(sys.modules.items()):
        if mod is None or not (name in STD or name == "antlr4" or name.startswith("antlr4.")):
            continue
        for k, v in list(vars(mod).items()):
            if isinstance(v, type) and name.startswith("antlr4") and v.__module__ == name:
                for kk, vv in list(vars(v).items()):
                    if not kk.startswith(("__", "_abc")):
                        out[name, k, kk] = thing(vv)
            out[name, k] = thing(v)
    return out


def thing(v):
    if isinstance(v, (int, str, bytes, float, bool, type(None), tuple)):
        return v
    if isinstance(v, (types.FunctionType, types.BuiltinFunctionType, type, types.ModuleType, property, staticmethod, classmethod)):
        return id(v)
    return type(v)


def cases(ctx):
    r = ctx.rng
    g = gen.Gen(r, maxnot=2)
    for i in range(ctx.share(ctx.n)):
        x = i % 5
        t = g.query()[0] if x == 0 else vconf.query(r) if x == 1 else gen.bad_semantics(r, g) if x == 2 else gen.hostile(r)
        yield {"t": t, "seed": r.randrange(2**32)}
    for t in ctx.mine(["", " ", "\x00", "#" * 500, "(" * 400, "(" * 120 + '"a"' + ")" * 120, "(" * 300 + '"a"' + ")" * 300, "(" * 2000 + '"a"' + ")" * 2000, "[" + "(" * 600 + 'a="b"' + ")" * 600 + "]", "[" + "&".join(['a="b"'] * 700) + "]", "#" * 3000, ')"' * 1500, '"a"{2,1} ' * 300, '"a"{' + "9" * 5000 + "}", '"' + "a" * 100000 + '"', "\ud800", '"\\ud800"', '"a" ' * 2000,
                       '"' + "\\" * 999 + '"', "[" + "&".join(['foo="b"'] * 300) + "]", '"a"/' + "i" * 3000, '__import__("os").system("true")', '"%s%n{0}{0.__class__}"', "/etc/passwd", '"/etc/passwd"', "file:///etc/passwd",
                       "<!DOCTYPE x [<!ENTITY e SYSTEM 'file:///etc/passwd'>]>"]):
        yield {"t": t, "seed": 1}
    # names of files that exist
    for n in ctx.mine(sorted(names(ctx))):
        for t in (n, f'"{n}"', "@" + n, "file:" + n, n + "\n", "file://" + n, "<" + n, f"[a='{n}']"):
            yield {"t": t, "seed": 1}
    for n in ctx.mine(["MANIFEST.json", "DESIGN.md", "./MANIFEST.json", "~root", "~", "~/x", "$HOME", "${HOME}", "%HOME%", "$PATH", "*", "vf/*", "vf", ".", "/", "..", "-", "/dev/null", "/dev/stdin"]):
        for t in (n, f'"{n}"', "@" + n, n + " x", f"[a='{n}']"):
            yield {"t": t, "seed": 1}


def names(ctx):
    # the place-holder is replaced when the text is used
    ends = {"", ".txt", ".fcs", ".json", ".log", ".cfg", ".py"} | {s for s in words.STRINGS if len(s) < 12 and "/" not in s and "\0" not in s and s.isascii() and s.isprintable()}
    if len(ends) > 150:
        ends = {e for e in ends if e in words.NEW_STRINGS or e.startswith(".")}
    return {"{DIR}/q" + e for e in ends | {"query"}} | {"{DIR}/" + e for e in ends if e.strip("./ ") and e in words.NEW_STRINGS}


def setup(ctx):
    for n in names(ctx):
        try:
            with open(n.replace("{DIR}", os.environ["VF_SCRATCH"]), "x") as f:
                f.write('"a" "b"')
        except OSError:  # another worker was first
            pass
    for t in ('"a"', '[x:a!="b" & (c="d" | !e="f"/id)]{2} within s', "#", '"a"/il', '("a" "\\u0041"'):
        use(t, common.derive(0), [])


class Log(fp.QueryVisitorAdapter):
    def visit_Expression(self, node):
        return super().visit_Expression(node)


OLD = [fp.QueryParser(), fp.QueryParser(enableSourceLocations=False)]
OLDV = fv.FCSQLValidator()


def use(t, r, printed):
    """everything a program can do with a text"""
    def run(f, *a, **kw):
        try:
            return f(*a, **kw)
        except (fp.QueryParserException, fv.SpecificationValidationError, m.SyntaxError, RecursionError):
            return None
    x = run(m.parse, t)
    for q in OLD:  # parsers with a long history
        run(q.parse, t)
    if x is not None:
        run(OLDV.validate, x)
        run(OLDV.is_valid, x, query=t)
    p = fp.QueryParser(default_identifier="lemma", default_operator=fp.Operator.NOT_EQUALS, unicode_normalization_form=r.choice([None, "NFC", "NFKD"]), enableSourceLocations=r.random() < 0.5)
    y = run(p.parse, t)
    run(m.can_parse, t)
    run(m.validate, t)
    run(m.validate, t, return_errors=True, warnings_as_errors=True)
    for z in (x, y):
        if z is None:
            continue
        run(str, z)
        run(Log().visit, z)
        run(fv.FCSQLValidator(query=t).validate, z)
        v = fv.FCSQLValidator(raise_at_first_violation=False, warnings_as_errors=r.random() < 0.5)
        run(v.validate, z, query=t)
        run(v.is_valid, z)
        for n in sut.nodes(z):
            n.child_count, n.get_first_child(), n.get_last_child(fp.Expression), n.has_node_type(fp.QueryNodeType.QUERY_SEGMENT)
    return x is not None


def evaluate(case, ctx):
    t, r = case["t"].replace("{DIR}", os.environ["VF_SCRATCH"]), common.derive(case["seed"])
    full = ctx.evaluations % 20 == 1
    state, names = common.process_state(), bindings() if full else None
    unraisable = []
    old = sys.unraisablehook
    for what in ("library", "antlr"):
        events = []
        with Capture() as cap, warnings.catch_warnings(record=True) as ws:
            warnings.simplefilter("always")
            sys.unraisablehook = lambda u: unraisable.append(f"{u.exc_type.__name__}: {u.exc_value!s:.100}")
            ACTIVE.append(events)
            try:
                if what == "library":
                    ok = use(t, r, cap)
                else:
                    good = False
                    try:
                        m.antlr_parse(t)
                        good = True
                    except (m.SyntaxError, RecursionError):
                        pass
                if full:
                    gc.collect()
            finally:
                ACTIVE.pop()
                sys.unraisablehook = old
        ctx.hit("calls observed", 8 if what == "library" else 1)
        if events:
            ctx.violation(f"{t[:200]!r} makes the library do {events[0][0]} {events[0][1]}")
            return
        if ws:
            ctx.violation(f"{t[:200]!r} causes a warning: {ws[0].message!s:.200}")
            return
        if unraisable:
            ctx.violation(f"{t[:200]!r} causes an exception nobody can catch: {unraisable[0]}")
            return
        if cap.out and (what == "library" or good):
            ctx.violation(f"{t[:200]!r} makes the library print {cap.out[:200]!r}")
            return
    now = common.process_state()
    ctx.hit("process states compared")
    ctx.hit("trees" if ok else "rejected")
    ctx.distinct(ok, t[:12], len(t))
    ctx.sample(t[:120])
    if now != state:
        k = next(k for k in state if state[k] != now[k])
        ctx.violation(f"{t[:200]!r} changes the {k} of the process: {now[k]!r:.150}, it was {state[k]!r:.150}")
        return
    if full:
        after = bindings()
        ctx.hit("names in other modules compared", len(after))
        for k in names:
            if k not in after or after[k] != names[k]:
                ctx.violation(f"{t[:200]!r} changes {'.'.join(k)} of another module: {after.get(k)!r:.100}, it was {names[k]!r:.100}")
                return
        for k in after:
            if k not in names and len(k) == 3:
                ctx.violation(f"{t[:200]!r} adds {'.'.join(k)} to a class of another module")
                return


def finish(ctx):
    # the monitor itself: it must see what it is meant to see
    seen = []
    ACTIVE.append(seen)
    try:
        open(os.devnull).close()
        gc.enable()
        eval("1")
        th = threading.Thread(target=int)
        th.start()
        th.join()
    finally:
        ACTIVE.pop()
    names = {e for e, _ in seen}
    if {"open", "gc.enable", "compile"} <= names and any(n.startswith("_thread") for n in names):
        ctx.hit("monitor self-tests passed")
