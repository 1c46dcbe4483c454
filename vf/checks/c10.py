"""C10: layout and spelling variants of one query give the same tree (metamorphic, no reference parser)."""
from .. import common, gen, ref, sut


class Variant:
    """re-spells the token stream of a query without changing what it says"""

    def __init__(self, r):
        self.r = r

    def literal(self, raw):
        r = self.r
        q, body = raw[0], raw[1:-1]
        x = r.random()
        nq = q
        if x < 0.5:
            nq = "'" if q == '"' else '"'
        out, i = [], 0
        while i < len(body):
            c = body[i]
            if c == "\\":
                e = body[i + 1]
                k = {"x": 2, "u": 4, "U": 8}.get(e, 0)
                unit = body[i:i + 2 + k]
                i += 2 + k
                if e in "'\"" and e != nq and r.random() < 0.5:
                    unit = e
                elif e == "n" and r.random() < 0.3:
                    unit = "\n"
                elif e == "t" and r.random() < 0.3:
                    unit = "\\x09"
                elif k:
                    cp = int(unit[2:], 16)
                    opts = [f"\\U{cp:08x}", f"\\U{cp:08X}"] + ([f"\\u{cp:04x}"] if cp < 0x10000 else []) + ([f"\\x{cp:02X}"] if cp < 256 else [])
                    if chr(cp) not in "\\'\"":
                        opts.append(chr(cp))
                    unit = r.choice(opts)
                out.append(unit)
            else:
                i += 1
                if c == nq:
                    out.append("\\" + c)
                elif r.random() < 0.06:
                    out.append(f"\\U{ord(c):08x}" if ord(c) > 0xFFFF else f"\\u{ord(c):04x}")
                else:
                    out.append(c)
        return nq + "".join(out) + nq

    def respell(self, toks):
        """token texts -> equivalent token texts"""
        r = self.r
        out, i = [], 0
        while i < len(toks):
            k = toks[i]
            if k.kind == "REGEXP":
                out.append(self.literal(k.text))
            elif k.kind == "REGEXP_FLAGS" and i and toks[i - 1].kind == "FWD_SLASH":
                s = [r.choice({"i": "ic", "c": "ic", "I": "IC", "C": "IC"}.get(c, c)) for c in k.text]
                if r.random() < 0.3:
                    s.append(r.choice(s))
                r.shuffle(s)
                out.append("".join(s))
            elif k.kind == "SIMPLE_WITHIN_SCOPE" and i == len(toks) - 1:
                out.append(r.choice([w for w in gen.SCOPE_WORDS if gen.SCOPE[w] == gen.SCOPE[k.text]]))
            elif k.kind == "Q_ONE_OR_MORE":
                out += r.choice([["+"], ["{", "1", ",", "}"]])
            elif k.kind == "Q_ZERO_OR_MORE":
                out += r.choice([["*"], ["{", "0", ",", "}"]])
            elif k.kind == "Q_ZERO_OR_ONE":
                out += r.choice([["?"], ["{", "0", ",", "1", "}"], ["{", ",", "1", "}"]])
            elif k.kind == "INTEGER":
                out.append(r.choice(["", "0", "00"]) + k.text)
            else:
                out.append(k.text)
            i += 1
        return out

    def layout(self, texts, style):
        r = self.r
        buf = []
        for i, x in enumerate(texts):
            need = i and texts[i - 1][-1].isalnum() and x[0].isalnum()
            if style == "tight":
                g = " " if need else ""
            elif style == "every":
                g = r.choice(ref.WS) * r.choice([1, 1, 2])
            else:
                g = "".join(r.choice(ref.WS) for _ in range(r.choice([0, 0, 1, 3])))
                if need and not g:
                    g = r.choice(ref.WS)
            buf += [g, x]
        return "".join(buf) + r.choice(["", "", " ", "\n"])


def cases(ctx):
    g = gen.Gen(ctx.rng)
    r = ctx.rng
    base = ['"a"', '[b="a"]', '("a"|"b"){1,2} within s', '[x:y!="c"/i & (d="e" | !f="g")]* []', '"a"{,3} ("b" "c")?']
    for w in ctx.mine(ref.WS):
        for b in base:
            texts = [k.text for k in ref.lex(b)[0]]
            for gap in (w, w * 2, w + " ", "\n" + w):
                yield {"a": b, "b": gap + gap.join(texts) + gap, "c": None, "k": "each-ws"}
    for _ in range(ctx.share(ctx.n)):
        c = common.rcfg(r)
        t, _ = g.query(cfg=common.cfg(c))
        vr = Variant(r)
        toks = ref.lex(t)[0]
        mode = r.randrange(3)
        texts = vr.respell(toks) if mode else [k.text for k in toks]
        yield {"a": t, "b": vr.layout(texts, r.choice(["tight", "every", "wild"])), "c": c, "k": "respelled" if mode else "layout"}


def evaluate(case, ctx):
    p = sut.parser(common.cfg(case["c"]), len(case.get("a", case.get("t", ""))) % 2 == 0)
    (ka, a), (kb, b) = common.attempt(p, case["a"]), common.attempt(p, case["b"])
    ctx.hit(case["k"])
    if ka != kb:
        ctx.violation(f"{case['a'][:250]!r} is {ka} but its variant {case['b'][:250]!r} is {kb} ({a!s:.100} / {b!s:.100})")
        return
    if ka != "ok":
        ctx.hit("rejected both")
        return
    ctx.hit("pairs compared")
    sa, sb = sut.snap(a), sut.snap(b)
    ctx.distinct(common.features(sa))
    ctx.sample([case["a"][:150], case["b"][:150]])
    d = ref.diff(sa, sb, loc=False)
    if d:
        ctx.violation(f"{case['a'][:250]!r} and its variant {case['b'][:250]!r} differ: {d}")
