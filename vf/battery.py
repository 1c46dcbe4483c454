"""Run a list of texts through the public entry points in this process and write down everything observable.

usage: python [flags] battery.py SPEC OUT      (started under many interpreter settings by check C29)"""
import ast
import os
import sys


def main(spec, out):
    order = spec["order"]
    sys.path.insert(0, spec["src"])
    asked = set()
    if spec.get("record"):
        # which environment variables does the library (or what it calls) ask for
        def note(key):
            f = sys._getframe(2)
            for _ in range(60):
                if f is None:
                    return
                if f.f_code.co_filename.startswith(spec["src"]):
                    asked.add(key)
                    return
                f = f.f_back

        class Recording(type(os.environ)):
            def __getitem__(self, key):
                note(key)
                return super().__getitem__(key)

            def __contains__(self, key):
                note(key)
                return super().__contains__(key)

            def __iter__(self):
                note("*")
                return super().__iter__()
        os.environ.__class__ = Recording
    if spec.get("clock"):
        import time
        for name in ("time", "monotonic", "perf_counter", "process_time"):
            setattr(time, name, lambda old=getattr(time, name), by=spec["clock"]: old() + by)
        for name in ("time_ns", "monotonic_ns", "perf_counter_ns", "process_time_ns"):
            setattr(time, name, lambda old=getattr(time, name), by=int(spec["clock"] * 1e9): old() + by)
        for name in ("localtime", "gmtime"):
            setattr(time, name, lambda secs=None, old=getattr(time, name): old(time.time() if secs is None else secs))
    if spec.get("argv"):
        sys.argv[:] = spec["argv"]
    if spec.get("gc") is not None:
        import gc
        gc.enable() if spec["gc"] else gc.disable()
        if spec["gc"]:
            gc.set_threshold(1, 1, 1)
    for m in order:
        __import__(m)
    import fcsql
    import fcsql.parser as fp
    import fcsql.validation as fv

    def val(x):
        x = getattr(x, "value", x)
        return x if x is None or type(x) in (str, int, bool) else f"{type(x).__name__}: {x!s:.80}"  # only literals go to the file

    def dump(root):
        res = []
        st = [root]
        while st:
            n = st.pop()
            d = {}
            for a in ("qualifier", "identifier", "operator", "regex", "min_occurs", "max_occurs", "scope"):
                if hasattr(n, a):
                    d[a] = val(getattr(n, a))
            fl = getattr(n, "regex_flags", None)
            d["flags"] = None if fl is None else sorted(val(f) for f in fl)
            d["kind"] = type(n).__name__
            d["type"] = val(n.node_type)
            d["loc"] = None if n.location is None else [n.location.start, n.location.stop]
            d["n"] = len(n.children)
            res.append(d)
            st.extend(reversed(n.children))
        return res

    def err(e):
        p = e.position
        return [e.message, e.type, [p.start, p.stop] if hasattr(p, "start") else p, e.fragment]

    def one(i, t, c):
        rec = {}
        p = fp.QueryParser(default_identifier=c[0], default_operator=fp.Operator.EQUALS if c[1] == "Eq" else fp.Operator.NOT_EQUALS,
                           unicode_normalization_form=c[2], enableSourceLocations=bool(i % 3))
        try:
            x = p.parse(t)
            rec["tree"] = dump(x)
            rec["text"] = str(x)
            seen = []
            type("V", (fp.QueryVisitorAdapter,), {"visit_Expression": lambda s, n: seen.append(n.regex)})().visit(x)
            rec["visited"] = seen
            v = fv.FCSQLValidator(query=t, raise_at_first_violation=False, warnings_as_errors=bool(i % 2))
            rec["valid"] = v.validate(x)
            rec["verdict"] = [[err(e) for e in v.errors], [err(e) for e in v.warnings]]
        except fp.QueryParserException as ex:
            rec["message"] = str(ex)
            rec["errors"] = [err(e) for e in p.errors]
        rec["can_parse"] = fcsql.can_parse(t)
        rec["validate"] = fcsql.validate(t)
        rec["list"] = [err(e) for e in fcsql.validate(t, return_errors=True, warnings_as_errors=True)]
        try:
            rec["antlr"] = fcsql.antlr_parse(t).getText()
        except fcsql.SyntaxError as ex:
            rec["antlr"] = [str(ex)]
        return rec

    def run():
        results.extend(one(i, t, c) for i, t, c in spec["items"])

    results = []
    failed = []
    if spec.get("thread"):
        import threading

        def body():
            try:
                run()
            except BaseException:
                import traceback
                failed.append(traceback.format_exc())
        th = threading.Thread(target=body)
        th.start()
        th.join()
    else:
        try:
            run()
        except BaseException:
            import traceback
            failed.append(traceback.format_exc())
    tmp = out + ".tmp"
    with open(tmp, "w", encoding="ascii") as fh:
        fh.write(ascii({"results": results, "failed": failed[:1], "asked": sorted(map(str, asked)), "cpu": sum(os.times()[:2])}))
    os.rename(tmp, out)


if __name__ == "__main__":
    with open(sys.argv[1], encoding="ascii") as f:
        main(ast.literal_eval(f.read()), sys.argv[2])
