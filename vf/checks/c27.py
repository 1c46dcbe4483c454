"""C27: logging does not change what queries mean, works for every query, and stays under the user's control."""
import logging

from .. import common, gen, ref, sut, vconf, words

fp = sut.fp


class Recorder(logging.Handler):
    def __init__(self):
        super().__init__(0)
        self.records = []
        self.errors = []
        self.setFormatter(logging.Formatter("%(asctime)s %(levelname)s %(name)s %(funcName)s %(message)s"))

    def emit(self, record):
        self.records.append((record.levelno, record.name))
        try:
            self.format(record)
        except Exception as ex:
            self.errors.append((ex, record.msg))


def state():
    """everything about logging that belongs to the user"""
    root = logging.getLogger()
    out = {"": (root.level, tuple(map(id, root.handlers)), root.disabled, tuple(map(id, root.filters)))}
    for n, x in logging.root.manager.loggerDict.items():
        if isinstance(x, logging.Logger):
            out[n] = (x.level, tuple(map(id, x.handlers)), x.disabled, x.propagate, tuple(map(id, x.filters)))
    out["?"] = (logging.root.manager.disable, logging.getLoggerClass(), logging.getLogRecordFactory(), logging.raiseExceptions, logging.lastResort)
    return out


def setup(ctx):
    logging.getLogger().setLevel(logging.WARNING)


def cases(ctx):
    r = ctx.rng
    g = gen.Gen(r)
    for i in range(ctx.share(ctx.n)):
        x = i % 5
        t = (g.query(r.choice([1, 2, 4, 8]))[0] if x < 2 else gen.hostile(r) if x == 2 else vconf.query(r) if x == 3 else gen.bad_semantics(r, g))
        if len(t) < 1500:
            yield {"t": t, "seed": r.randrange(2**32)}
    for t in ctx.mine(["", "%", '"%s"', '"%d %(x)s"', "%s", '"a" %', '[a="%"/i]', '"{}"', "{}", '"{0}" {', "[%s]", '"\\', "\n%s", '"a" within %s', '"%"{2,1}', '"\ud800"', "\ud800", "\x00", '"\\UFFFFFFFF"']):
        for s in range(3):
            yield {"t": t, "seed": s}


SETTINGS = ["root debug", "module debug", "package debug", "quiet", "disabled", "toggle", "untouched", "filtered", "level", "level"]


def evaluate(case, ctx):
    t = case["t"]
    r = common.derive(case["seed"])
    c = common.rcfg(r)
    loc = r.random() < 0.7
    v = common.expect(t, c)
    if v.limit or not gen.nots_ok(t) or t.count("!") > 3:
        return
    how = r.choice(SETTINGS)
    ctx.hit("with " + how)
    root, pkg, mod = logging.getLogger(), logging.getLogger("fcsql"), logging.getLogger("fcsql.parser")
    saved = [(x, x.level, x.handlers[:], x.filters[:], x.disabled, x.propagate) for x in (root, pkg, mod)]
    h = Recorder()
    try:
        root.addHandler(h)
        if how == "root debug" or how == "toggle":
            root.setLevel(logging.DEBUG)
        elif how == "module debug":
            mod.setLevel(logging.DEBUG)
        elif how == "package debug":
            pkg.setLevel(1)
        elif how == "quiet":
            root.setLevel(1)
            pkg.setLevel(logging.CRITICAL + 1)
        elif how == "disabled":
            root.setLevel(1)
            logging.disable(logging.CRITICAL)
        elif how == "level":
            for x in (root, pkg, mod):
                if r.random() < 0.6:
                    x.setLevel(words.INTS and r.random() < 0.3 and words.size(r, 60) or r.choice([1, 5, 9, 10, 11, 12, 15, 19, 20, 21, 25, 30, 40, 50, 60, r.randrange(1, 61)]))
        elif how == "filtered":
            root.setLevel(1)
            flip = [0]

            def fil(rec):
                flip[0] += 1
                return flip[0] % 2 == 0
            h.addFilter(fil)
        before = state()
        p = sut.parser(common.cfg(c), loc)
        for step in range(2):
            kind, x = common.attempt(p, t)
            if kind != ("ok" if v.ok else "rejected"):
                ctx.violation(f"{t[:200]!r} with logging {how}: {kind}: {x!s:.200}")
                return
            if kind == "ok":
                d = ref.diff(v.tree, sut.snap(x), loc)
                if d and "!" not in t:
                    ctx.violation(f"{t[:200]!r} with logging {how}: {d}")
                    return
                val = sut.fv.FCSQLValidator(raise_at_first_violation=False)
                ok = val.validate(x)
                want = not any(s == "error" for s, *_ in ref.validate_spec(sut.snap(x)))
                if ok is not want:
                    ctx.violation(f"{t[:200]!r} with logging {how}: validated as {ok}, expected {want}")
                    return
                tr = []
                nop = type("V", (fp.QueryVisitorAdapter,), {"visit_Expression": lambda s, n: tr.append(n)})()
                nop.visit(x)
                if len(tr) != sum(n.kind == "Expression" for n in v.tree.walk()):
                    ctx.violation(f"{t[:200]!r} with logging {how}: {len(tr)} expressions visited")
                    return
            elif step == 0:
                first = (str(x), [sut.err_key(e) for e in p.errors])
            elif (str(x), [sut.err_key(e) for e in p.errors]) != first:
                ctx.violation(f"{t[:200]!r}: different errors depending on logging ({how}): {x!s:.100} / {first[0][:100]}")
                return
            if step == 0:
                if how == "toggle":
                    if state() != before:
                        break
                    root.setLevel(logging.WARNING)
                    before = state()
        after = state()
        new = {k for k in after if k not in before}
        changed = [k for k in before if after.get(k) != before[k]] + [k for k in new if after[k][0] or after[k][1]]
        if changed:
            ctx.violation(f"{t[:200]!r}: parsing changed the logging set-up of {changed}")
        ctx.hit("records formatted", len(h.records))
        if h.errors:
            ctx.violation(f"{t[:200]!r}: log record cannot be formatted: {h.errors[0][0]!r:.200} in {h.errors[0][1]!r:.100}")
        if any(lv >= logging.WARNING for lv, _ in h.records):
            ctx.violation(f"{t[:200]!r}: parsing logs at level {max(h.records)[0]}")
        if any(not (n == "fcsql" or n.startswith("fcsql.")) for _, n in h.records):
            ctx.violation(f"{t[:200]!r}: records of loggers {sorted(set(n for _, n in h.records))[:5]}")
        if h.records and how in ("quiet", "disabled", "untouched"):
            ctx.violation(f"{t[:200]!r}: {len(h.records)} records although logging is {how}")
        ctx.distinct(t, how, len(h.records))
        ctx.sample([t[:100], how, len(h.records)])
    finally:
        logging.disable(logging.NOTSET)
        for x, lv, hs, fs, dis, prop in saved:
            x.setLevel(lv)
            x.handlers[:] = hs
            x.filters[:] = fs
            x.disabled, x.propagate = dis, prop
