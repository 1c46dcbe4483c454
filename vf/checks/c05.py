"""C05: the value of every literal: quotes off, escapes decoded, regex escapes kept, normalised."""
import unicodedata

from .. import common, gen, ref, sut

SIMPLE = "\\'\"nt.^$*+?(){}[]|"


def literals(case):
    return case["l"]


def cases(ctx):
    r = ctx.rng
    forms = ["NFC", "NFD", "NFKC", "NFKD", None]
    # every code point, raw and escaped, in blocks
    hi = 0x110000 if ctx.thorough else 0x3400
    blocks = list(range(0, hi, 32))
    if not ctx.thorough:
        # the rest of the basic plane and the ends of all planes, each character once as an escape
        for b in ctx.mine(list(range(0x3400, 0x10000, 256))):
            yield {"l": ['"' + "".join(f"\\u{c:04x}" for c in range(b, b + 256)) + '"'], "f": r.choice(forms + [None] * 5), "k": "codepoints"}
        for b in ctx.mine([p * 0x10000 + o for p in range(1, 17) for o in (0, 0xFF00)]):
            yield {"l": ['"' + "".join(f"\\U{c:08x}" for c in range(b, b + 256)) + '"', "'" + "".join(chr(c) for c in range(b, b + 256)) + "'"], "f": r.choice(forms + [None] * 5), "k": "codepoints"}
    if not ctx.thorough:
        blocks += r.sample(range(0x3400, 0x110000, 32), 500) + [0xAC00, 0xD7A0, 0xD800, 0xDBE0, 0xDC00, 0xDFE0, 0xF900, 0xFA00, 0xFB00, 0xFFE0, 0x10000, 0x10FFE0,
                                                                0x1D400, 0x1D15E & ~31, 0x2F800, 0x1F600]
    for b in ctx.mine(blocks):
        cps = [c for c in range(b, b + 32) if c <= 0x10FFFF]
        f = r.choice(forms)
        q = r.choice("\"'")
        sep = r.choice(["x", "", ".", "e"])
        raw = q + sep.join(chr(c) for c in cps if chr(c) not in q + "\\") + q
        esc = q + sep.join(f"\\U{c:08x}" for c in cps) + q
        lits = [raw, esc]
        if b < 0x10000:
            lits.append(q + sep.join(f"\\u{c:04X}" for c in cps) + q)
        if b < 0x100:
            lits.append(q + sep.join(f"\\x{c:02x}" for c in cps) + q)
        yield {"l": lits, "f": f, "k": "codepoints"}
    # every pair of escapes, and escapes next to plain text
    for a in ctx.mine(SIMPLE):
        for b in SIMPLE:
            yield {"l": [f"'\\{a}\\{b}'", f'"\\{a}{b if b not in chr(34) + chr(92) else "x"}\\{b}"', f'"x\\{a}y\\{b}z"'], "f": r.choice(forms), "k": "escapes"}
        for h in ("\\x41", "\\u0041", "\\U00000041", "\\x5c", "\\x22", "\\u0027", "\\x5C\\x6e"):
            yield {"l": [f'"{h}\\{a}{h}"', f"'\\{a}{h}41'"], "f": r.choice(forms), "k": "escapes"}
    g = gen.Gen(r)
    for _ in range(ctx.share(ctx.n)):
        x = r.random()
        if x < 0.75:
            lits = [g.literal()[0] for _ in range(r.choice([1, 1, 2, 4]))]
        else:
            # combining sequences assembled from raw and escaped parts
            base = r.choice("aeoAEO\u0041\u1100\u0915\u05d0\u212b\ufb01\u1e9b")
            seq = [base] + [chr(r.choice([0x300, 0x301, 0x308, 0x30A, 0x323, 0x327, 0x345, 0x1161, 0x11A8, 0x93C, 0x5B7, 0x338])) for _ in range(r.randint(1, 4))]
            s = "".join(r.choice([c, f"\\u{ord(c):04x}", f"\\U{ord(c):08X}"]) for c in seq * r.choice([1, 1, 2, 9]))
            lits = ['"' + s + '"', "'" + s + "'"]
        yield {"l": lits, "f": r.choice(forms), "k": "random"}
    for L in ctx.mine(list(range(0, 70)) + [127, 128, 129, 255, 256, 257, 999, 1000, 1001, 1023, 1024, 1025, 2047, 2048, 4095, 4096, 4097, 20000]):
        w = "".join(r.choice("abc \u00e4\u0301\\n\\.".replace("\\", "")) for _ in range(L))
        yield {"l": [f'"{w}"', f"'{w}'", '"' + "\\n" * L + '"', '"' + "\\\\" * L + '"', "'" + "\\'" * L + "'", '"' + "e\u0301" * L + '"', "'x" + "e\u0301" * L + "'", '"' + "\\u00e9" * L + '"'],
               "f": r.choice(forms), "k": "lengths"}


def evaluate(case, ctx):
    r = common.derive(case["l"], ctx.seed)
    f = case["f"]
    p = sut.fp.QueryParser(unicode_normalization_form=f, enableSourceLocations=r.random() < 0.5)
    default = sut.fp.QueryParser()
    for lit in case["l"]:
        want = ref.decode(lit, f)
        t = r.choice(["{}", "{}", "[a={}]", '[x:b!={}/i]', "({} {})+", '"q" | {}', "{}/ld".replace("/ld", "/d"), "[(!a={})] within s"]).format(lit, lit)
        kind, x = common.attempt(p, t)
        if kind != "ok":
            ctx.violation(f"valid literal rejected: {t[:200]!r}: {x}")
            return
        got = [n.regex for n in sut.nodes(x) if isinstance(n, sut.fp.Expression) and n.regex != "q"]
        ctx.hit("values observed", len(got))
        ctx.hit("k:" + case["k"])
        ctx.distinct(want, f)
        if case["k"] == "random":
            ctx.sample({"literal": lit[:100], "form": f, "value": want[:100]})
        exp = [want] * len(got) if want != "q" else []
        if not got and want != "q" or got != exp:
            ctx.violation(f"value of {lit[:200]!r} (form {f}): expected {want[:200]!r}, got {got[:1]!r:.300}")
            return
        if f == "NFC":
            kind, x = common.attempt(default, lit)
            if kind == "ok" and next(n for n in sut.nodes(x) if isinstance(n, sut.fp.Expression)).regex != want:
                ctx.violation(f"default settings: value of {lit[:200]!r} is not {want[:200]!r}")
