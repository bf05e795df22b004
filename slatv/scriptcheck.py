"""What the checks of the Python part share: the cases of every form of a
command, comparison of values, and what a case knows."""
import os
from .script import *
from .report import Check
from .load import AnalysisBroken

FIRST = {
    "scalar": lambda v: v[2][0][1] == "numerical_scalar",
    "numerical_scalar": lambda v: v[2][0][1] == "FLOAT_VAL",
    "recorder_at": lambda v: v[2][0][1] == "var_ref",
    "file_spec": lambda v: v[2][0][1] == "ID",
    "parameters": lambda v: v[2][0][1] == "parameter",
}

_g = []


def grammar():
    if not _g:
        g = Grammar()
        _g.append((g, Derive(g, FIRST)))
    return _g[0]


def listener_where(s, rule):
    f, c = s.listener.cls.find("exit" + rule[0].upper() + rule[1:])
    return "src/SlatInterpreter.py:%d" % f.node.lineno if isinstance(f, Fn) else "src/SlatInterpreter.py"


KNOWN_OPS = {"sym", "attr", "call", "list", "value", "text", "var", "py", "entry", "elem", "range", "pos", "item", "tuple", "len",
             "repetition", "bin", "int", "float", "str", "file", "file_", "progression", "carried", "elemof", "cmp", "none", "splice",
             "dict", "sum", "maximum", "minimum", "keys", "sorted"}
KNOWN_FNS = {"math.exp", "math.log", "math.sqrt", "numpy.mean", "numpy.std", "numpy.var", "numpy.median", "numpy.average", "numpy.loadtxt",
             "numpy.arange", "numpy.sum", "os.path.join", "os.path.dirname", "os.path.splitext", "os.path.basename",
             "numpy.linspace", "numpy.logspace", "numpy.geomspace", "numpy.exp", "numpy.log"}


def strange(v):
    """Something in the value the comparison has no meaning for."""
    for t in walk(v):
        if t.op == "slice" and all(x is None or isinstance(x, (int, float)) for x in t.a[1:]) and t.a[3] in (None, 1) and ((t.a[1] or 0) > 0 or (t.a[2] is not None and t.a[2] <= 1)):
            continue
        if t.op not in KNOWN_OPS:
            return "%s" % t.op
        if t.op == "call":
            f = t.a[0]
            r = f
            while r.op in ("attr", "call", "item"):
                r = r.a[0]
                if not isinstance(r, Term):
                    return "?"
            if r.op == "sym" and r.a[0] not in ("pyslatcore",) and r.op != "entry":
                if show(f) not in KNOWN_FNS:
                    return show(f)
    return None


def agree(got, want):
    """(True|False|None, detail)"""
    g, w = canon2(got), canon2(want)
    if g is w or (concrete(g) and concrete(w) and g == w and type(g) is type(w)):
        return True, ""
    d = "%s, where %s is specified" % (show(g)[:300], show(w)[:300])
    s = strange(g)
    if s:
        return None, "%s (%s)" % (d, s)
    return False, d


def canon2(v):
    return fold(canon(v))


_fold = {}
ALIAS = {("numpy", "exp"): "exp", ("numpy", "log"): "log", ("numpy", "sqrt"): "sqrt"}


def fold(t):
    """A few identities: lists of one element written in several ways, numpy's
    functions of one number."""
    if isinstance(t, tuple):
        return tuple(fold(x) for x in t)
    if not isinstance(t, Term):
        return float(t) if isinstance(t, int) and not isinstance(t, bool) else t
    r = _fold.get(t)
    if r is None:
        a = tuple(fold(x) for x in t.a)
        if t.op == "attr" and isinstance(a[0], Term) and a[0].op == "sym" and (a[0].a[0], a[1]) in ALIAS:
            r = mk("attr", mk("sym", "math"), a[1])
        elif t.op == "bin" and a[0] in "+*":
            # commutative: canonical order
            flat = []

            def go(x):
                if isinstance(x, Term) and x.op == "bin" and x.a[0] == a[0]:
                    go(x.a[1])
                    go(x.a[2])
                else:
                    flat.append(x)
            go(a[1])
            go(a[2])
            flat.sort(key=lambda x: show(x))
            r = flat[0]
            for x in flat[1:]:
                r = mk("bin", a[0], r, x)
        else:
            r = mk(t.op, *a)
        _fold[t] = r
    return r


def canon_facts(case):
    out = {}
    for k, v in case.facts.items():
        if isinstance(k, tuple):
            out[tuple(canon2(x) if isinstance(x, Term) else x for x in k)] = v
    return out


class Tally:
    """One obligation for each form of each command, summed up by what is at
    stake: violated if one case is."""
    def __init__(self, c):
        self.c = c
        self.t = {}
        c.before_finish.append(self.done)

    def add(self, rule, where, what, ok, detail, form):
        e = self.t.setdefault((rule, where, what), {"n": 0, "bad": [], "und": []})
        if ok is None:
            e["und"].append("%s: %s" % (form, detail))
        else:
            e["n"] += 1
            if not ok:
                e["bad"].append("%s: %s" % (form, detail))

    def done(self):
        t, self.t = self.t, {}
        for (rule, where, what), e in t.items():
            self.c.count("cases", e["n"])
            if e["bad"]:
                self.c.ob(rule, where, what, False, "; ".join(e["bad"][:2]) + ("; and %d more" % (len(e["bad"]) - 2) if len(e["bad"]) > 2 else ""))
            elif e["und"]:
                self.c.ob(rule, where, what, None, "; ".join(e["und"][:2]))
            elif e["n"]:
                self.c.ob(rule, where, what, True)


# ---------------------------------------------------------------- what the tokens mean

MU = {"MEAN_LN_X": "MEAN_LN_X", "MEDIAN_X": "MEDIAN_X", "MEAN_X": "MEAN_X"}
SD = {"SD_LN_X": "SD_LN_X", "SD_X": "SD_X"}


def V(n):
    """The value a token or part of a command stands for."""
    if isinstance(n, Tok):
        if n.name in ("INTEGER", "FLOAT_VAL", "STRING"):
            return mk("value", n.text)
        return n.text
    r = n.rule
    if r == "var_ref":
        return mk("var", n.one("ID").text)
    if r == "python_script":
        return mk("py", n.one("python_expression").text())
    if r == "scalar2":
        return L(*[("v", None, V(x)) for x in n.all("scalar")])
    if r == "scalar3":
        return L(*[("v", None, V(x)) for x in n.one("scalar2").all("scalar") + [n.one("scalar")]])
    if r == "parameter_array":
        return L(*[(k, s, V(x)) for k, s, x in n.items("parameter")])
    if r == "parameter_dictionary":
        d = LDict()
        for k, s, x in n.items("dictionary_entry"):
            key = V((x.all("ID") or x.all("STRING"))[0])
            d.entries.append([key, V(x.one("parameters")), s])
        return canon(d)
    kids = [c[1] for c in n.children if c[0] != "star"]
    if len(kids) == 1:
        return V(kids[0])
    raise Undecided("what %s means" % r)


def options(n):
    """(location, spread) of lognormal_options: the enumerators, or None."""
    m, s = n.one("mu_option"), n.one("sd_option")
    mu = sd = None
    if m is not None:
        mu = [core(MU[k]) for k in MU if m.one(k) is not None][0]
    if s is not None:
        sd = [core(SD[k]) for k in SD if s.one(k) is not None][0]
    return mu, sd


def dist(n):
    """MakeLogNormalDist for a lognormal_dist, or None when not fully given."""
    mu, sd = options(n.one("lognormal_options"))
    if mu is None or sd is None:
        return None
    a = n.one("scalar2").all("scalar")
    return Call("MakeLogNormalDist", V(a[0]), mu, V(a[1]), sd)


def filename(n):
    t = (n.all("FILE_NAME") or n.all("ID"))[0]
    return t.text
