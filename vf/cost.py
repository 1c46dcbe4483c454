"""Measures the work of the code under test in this (fresh) process: executed lines and processor time.

usage: python -m vf.cost SPEC OUT     SPEC = {"texts": [...], "what": "parse" | "validate" | "tree", "cap": n}
Writes a list of {"lines", "own", "cpu", "outcome"}, one per text; stops at the cap."""
import functools
import json
import os
import sys
import time

from . import sut

fp = sut.fp


class Capped(BaseException):
    pass


@functools.lru_cache(None)
def is_prediction(filename):
    """the part of the ANTLR runtime that looks ahead (its work is not bounded by the size of the tree)"""
    if "/antlr4/" not in filename:
        return False
    tail = filename.rsplit("/antlr4/", 1)[1]
    return tail.startswith(("atn/", "dfa/")) or tail in ("PredictionContext.py", "BufferedTokenStream.py", "CommonTokenStream.py", "InputStream.py", "IntervalSet.py", "LL1Analyzer.py", "Utils.py", "Lexer.py",
                                                        "Token.py", "CommonTokenFactory.py", "error/ErrorStrategy.py")


class Counter:
    TOOL = 3

    def __init__(self, cap, rest_only=False):
        self.rest_only = rest_only
        self.lines = self.own = self.rest = 0
        self.by = {}
        self.cap = cap
        self.capped = False

    def __enter__(self):
        mon = sys.monitoring
        mon.use_tool_id(self.TOOL, "vf-cost")
        mon.register_callback(self.TOOL, mon.events.LINE, self.line)
        mon.register_callback(self.TOOL, mon.events.JUMP, self.jump)
        mon.set_events(self.TOOL, mon.events.LINE | (mon.events.JUMP if self.rest_only else 0))
        mon.restart_events()
        return self

    def __exit__(self, *a):
        sys.monitoring.set_events(self.TOOL, 0)
        sys.monitoring.free_tool_id(self.TOOL)

    def jump(self, code, at, to):
        """rounds of comprehensions and generators, which have no line of their own"""
        if to >= at or is_prediction(code.co_filename):
            return sys.monitoring.DISABLE
        self.rest += 1
        if code.co_filename.startswith(sut.SRC):
            self.by[code.co_name] = self.by.get(code.co_name, 0) + 1

    def line(self, code, line):
        if self.rest_only and is_prediction(code.co_filename):
            return sys.monitoring.DISABLE
        self.lines += 1
        if code.co_filename.startswith(sut.SRC):
            self.own += 1
            if self.rest_only:
                self.by[code.co_name] = self.by.get(code.co_name, 0) + 1
        if not is_prediction(code.co_filename):
            self.rest += 1
        if self.lines > self.cap and not self.capped:
            self.capped = True
            sys.monitoring.set_events(self.TOOL, 0)
            raise Capped()


def work(what, t):
    try:
        if what == "validate":
            sut.fcsql.validate(t, return_errors=True)
        elif what == "plain":
            p = fp.QueryParser(default_identifier="lemma", default_operator=fp.Operator.NOT_EQUALS, unicode_normalization_form=None)
            p.parse(t)
        else:
            x = sut.fcsql.parse(t)
            if what == "tree":
                str(x)
                class V(fp.QueryVisitorAdapter):
                    pass
                V().visit(x)
                v = sut.fv.FCSQLValidator(query=t, raise_at_first_violation=False)
                v.validate(x)
                for n in sut.nodes(x):
                    n.child_count
                    n.get_first_child()
                    n.get_last_child()
        return "ok"
    except fp.QueryParserException:
        return "rejected"
    except RecursionError:
        return "too deep"


def main():
    spec = json.load(open(sys.argv[1]))
    out = []
    for t in spec["texts"]:
        rec = {}
        if spec["what"] == "time":
            best = None
            for _ in range(2):
                t0 = time.process_time()
                o = work("parse", t)
                d = time.process_time() - t0
                best = d if best is None or d < best else best
            rec = {"cpu": best, "outcome": o, "lines": 0, "own": 0}
        else:
            if spec.get("warm"):
                work(spec["what"], t)
            c = Counter(spec["cap"], spec.get("warm"))
            try:
                with c:
                    o = work(spec["what"], t)
            except Capped:
                pass
            if c.capped:
                o = "capped"
            rec = {"lines": c.lines, "own": c.own, "rest": c.rest, "outcome": o, "cpu": 0, "by": c.by}
        out.append(rec)
        if rec["outcome"] == "capped":
            break
    tmp = sys.argv[2] + ".tmp"
    json.dump(out, open(tmp, "w"))
    os.rename(tmp, sys.argv[2])


if __name__ == "__main__":
    main()
