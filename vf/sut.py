"""Observation of the code under test at its public boundary."""
import os
import sys

REPO = os.environ.get("VF_REPO", "/repo")
SRC = os.path.join(REPO, "src")
sys.dont_write_bytecode = True
if SRC not in sys.path:
    sys.path.insert(0, SRC)

import fcsql  # noqa: E402
import fcsql.parser as fp  # noqa: E402
import fcsql.validation as fv  # noqa: E402

from . import ref  # noqa: E402

assert os.path.realpath(fcsql.__file__).startswith(os.path.realpath(SRC) + os.sep), fcsql.__file__

KINDS = ["Expression", "ExpressionWildcard", "ExpressionGroup", "ExpressionNot", "ExpressionAnd", "ExpressionOr",
         "QueryDisjunction", "QuerySequence", "QueryWithWithin", "QuerySegment", "QueryGroup", "SimpleWithin"]
CLS = {k: getattr(fp, k) for k in KINDS}


class Malformed(Exception):
    """a tree handed out by the code under test is not a tree of query nodes"""


def kind_of(node):
    t = type(node)
    for k, c in CLS.items():
        if t is c:
            return k
    for k, c in CLS.items():
        if isinstance(node, c):
            return k
    raise Malformed(f"not a query node: {node!r:.200}")


def val(x):
    """plain string of a (str) enum member"""
    v = getattr(x, "value", x)
    return v


def snap(node, depth=0):
    """QueryNode -> reference N, through public attributes only"""
    if depth > 900:
        raise Malformed("tree deeper than 900 levels (cyclic?)")
    k = kind_of(node)
    at = {}
    if k == "Expression":
        fl = node.regex_flags
        if not isinstance(node.operator, fp.Operator) or any(not isinstance(f, fp.RegexFlag) for f in fl or ()):
            raise Malformed(f"operator {node.operator!r} or flags {fl!r:.100} are not of their types")
        if any(type(x) is not str for x in (node.identifier, node.regex, node.qualifier) if x is not None):
            raise Malformed(f"name or value of {node!s:.100} is not a string")
        at = {"qualifier": node.qualifier, "identifier": node.identifier, "operator": val(node.operator),
              "regex": node.regex, "flags": None if fl is None else frozenset(val(f) for f in fl)}
    elif k in ("QuerySegment", "QueryGroup"):
        at = {"min": node.min_occurs, "max": node.max_occurs}
        if type(node.min_occurs) is not int or type(node.max_occurs) is not int:
            raise Malformed(f"bounds {node.min_occurs!r}, {node.max_occurs!r} are not integers")
    elif k == "SimpleWithin":
        at = {"scope": val(node.scope)}
        if not isinstance(node.scope, fp.SimpleWithinScope):
            raise Malformed(f"scope {node.scope!r}")
    loc = node.location
    if loc is not None:
        loc = (loc.start, loc.stop)
    return ref.N(k, at, [snap(c, depth + 1) for c in node.children], loc)


OPS = {"Eq": fp.Operator.EQUALS, "Ne": fp.Operator.NOT_EQUALS}


def parser(cfg=None, loc=True):
    if cfg is None:
        return fp.QueryParser(enableSourceLocations=loc)
    return fp.QueryParser(default_identifier=cfg.identifier, default_operator=OPS[cfg.operator],
                          unicode_normalization_form=cfg.form, enableSourceLocations=loc)


def nodes(root):
    st = [root]
    seen = 0
    while st:
        n = st.pop()
        yield n
        seen += 1
        if seen > 200000:
            raise Malformed("more than 200000 nodes (cyclic?)")
        st.extend(reversed(n.children))


def err_key(e):
    p = e.position
    if isinstance(p, fp.SourceLocation):
        p = ("loc", p.start, p.stop)
    return (e.message, e.type, p, e.fragment)
