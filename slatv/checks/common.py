from .. import load, model
from ..interp import *
from ..report import Check
from ..load import AnalysisBroken


def where(f):
    return "%s:%s" % (f["file"], f["line"])


def short(q):
    return q.replace("SLAT::", "")


def sig(f):
    return "%s(%s)" % (short(f["q"]), ", ".join(x["t"].replace("SLAT::", "").replace("std::", "") for x in f.get("params", [])))


_model = []


def the_model():
    if not _model:
        _model.append(model.Model(load.load()))
    return _model[0]


def hollow(t, b):
    """The fact (t is b) says that a container has no elements."""
    size = lambda x: isinstance(x, T) and x.op == "size"
    zero = lambda x: isinstance(x, T) and x.op in ("c", "const", "num", "int") and str(x.a[0]) == "0" or show(x) == "0"
    one = lambda x: show(x) == "1"
    if t.op in ("empty", "isempty"):
        return b
    if t.op == "size":
        return not b
    if t.op == "eq" and any(size(x) for x in t.a):
        return b and any(zero(x) for x in t.a)
    if t.op == "lt" and size(t.a[1]) and zero(t.a[0]):
        return not b
    if t.op == "le" and size(t.a[1]) and one(t.a[0]):
        return not b
    if t.op == "lt" and size(t.a[0]) and one(t.a[1]) or t.op == "le" and size(t.a[0]) and zero(t.a[1]):
        return b
    return False
