"""C07: a list is evaluated element by element."""
from .common import *
from .. import coverage, formula, order

RULE = ("For every function that takes a list of arguments for which the class (or namespace) has the same query for one "
        "argument, the list it returns is computed by abstract interpretation: it must have as many elements as the "
        "argument, its element i must be the scalar query's value at element i of the argument, the other arguments "
        "being passed on, and the loop must visit every index. An element may be computed by any calls whose value is "
        "the scalar query's.")

PRE = ("bulk_", "par_")


def base_name(n):
    for p in PRE:
        if n.startswith(p):
            return n[len(p):]
    return n


class Opaque(Client):
    merge = "paths"

    def __init__(self, keep=()):
        self.keep = keep

    def policy(self, e, fn, obj):
        if fn is not None and (fn.get("islambda") or (fn.get("k") == "function" and fn.get("static"))):
            return "inline"
        if fn is not None and fn["id"] in self.keep:
            return "inline"
        return "opaque"


def elem_t(t):
    t = t.replace("const ", "").replace("&", "").strip()
    if t.startswith("std::vector<") and t.endswith(">"):
        t = t[len("std::vector<"):-1].split(",")[0].strip()
        return t
    return None


def scalar_of(p, f):
    """[(scalar function, index of the list parameter)]"""
    out = []
    ps = f["params"]
    ret = elem_t(f.get("ret") or "")
    if ret is None:
        return out
    sibs = [g for g in p.funcs.values() if "body" in g and g["id"] != f["id"] and (g.get("rec") or "") == (f.get("rec") or "")
            and not g.get("islambda") and g["name"] in (base_name(f["name"]), f["name"])]
    for k, x in enumerate(ps):
        a = elem_t(x["t"])
        if a is None:
            continue
        for g in sibs:
            if len(g["params"]) == len(ps) and same(g["params"][k]["t"], a) and all(
                    same(g["params"][j]["t"], ps[j]["t"]) for j in range(len(ps)) if j != k) and same(g.get("ret") or "", ret):
                out.append((g, k))
    return out


def same(a, b):
    f = lambda t: t.replace("const ", "").replace("&", "").strip()
    return f(a) == f(b)


def values(p, g, this, args, keep=()):
    I = Interp(p, Opaque(keep))
    return frozenset(t for w, o in I.run(g, this=this, args=args) if o == "return" for t in (w.ret or ()))


def run(thorough=False):
    c = Check("C07", RULE, thorough)
    m = the_model()
    p = m.p
    for f in sorted(p.funcs.values(), key=lambda f: (f["q"], f.get("line", 0))):
        if "body" not in f or f.get("islambda") or f.get("implicit") or f["file"].endswith("_test.cpp"):
            continue
        gs = scalar_of(p, f)
        if not gs:
            continue
        c.count("list_queries")
        c.functions.add(f["id"])
        judge(c, p, f, gs)
    wrappers(c, p)
    c.need("element i is the query at element i", 5)
    return c.finish()


def wrappers(c, p):
    """List query of a cached calculation: the class has a cache of the name
    instead of a method."""
    for f in sorted(p.funcs.values(), key=lambda f: f["q"]):
        if "body" not in f or f.get("islambda") or len(f["params"]) != 1 or not f.get("rec") or scalar_of(p, f):
            continue
        a = elem_t(f["params"][0]["t"])
        r = elem_t(f.get("ret") or "")
        if not a or not r:
            continue
        flds = {x["name"]: x for x in p.all_fields(f["rec"])}
        fl = flds.get(base_name(f["name"]))
        if fl is None or "CachedFunction<%s, %s>" % (r, a) not in fl["t"]:
            continue
        c.count("list_queries")
        c.functions.add(f["id"])
        judge(c, p, f, [(None, 0)], cachef=fl["name"])


VOC = set(formula.LIB) | {"P_exceedence", "X_at_exceedence", "Mean", "MeanLn", "Median", "SD_ln", "SD", "pCollapse", "pDemolition", "pRepair",
                          "lambda", "ValueAt", "Evaluate", "DerivativeAt", "CostNC", "TotalCost", "Cost", "CostsByFate", "DeaggregatedCost",
                          "CostDist_IM", "E_cost_IM", "SD_ln_cost_IM", "pHighest", "pExceeded", "CalculateLoss"}


class Deep(formula.Vocab):
    """Follows what belongs to the object itself."""

    def __init__(self):
        super().__init__(())

    def policy(self, e, fn, obj):
        if fn is None or "body" not in fn:
            return "opaque"
        if fn.get("islambda") or not fn.get("rec") or fn.get("k") == "ctor" and fn["rec"] == formula.DIST:
            return "inline"
        rec = fn["rec"]
        if rec in self.recs or rec.startswith("SLAT::Replaceable") or "Caching::" in rec:
            return "opaque"
        return "inline" if obj and all(x.op == "obj" for x in obj) else "opaque"


def deep(c, p, f, g, k, cls):
    """The list's element against the query's value, both calculated for an
    object of class cls: (True/False/None, detail)."""
    kind = {"double": "num", "SLAT::LogNormalDist": "dist"}.get(elem_t(f["ret"]), None)
    if kind is None:
        return None, ""
    args = [S(mk("param", "a%d" % i)) for i in range(len(f["params"]))]
    lst = args[k]
    sargs = list(args)
    sargs[k] = S(mk("idx", formula.one(lst), formula.IX))
    try:
        outs, I = formula.run_fn(p, f, Deep(), cls=cls, args=args)
        souts, _ = formula.run_fn(p, g, Deep(), cls=cls, args=sargs)
    except TooBig as ex:
        return None, str(ex)
    ws = [(formula.Facts(w.facts).f, w.ret) for w, o in souts if o == "return"]
    if not ws or any(r is None or len(r) != 1 for _, r in ws):
        return None, ""

    def spec(i, facts):
        out = order.Cases()
        for fs, r in ws:
            both = dict(facts.f)
            if any(both.get(t, v) != v for t, v in fs.items()):
                continue
            both.update(fs)
            if order.feasible(order.conditions(both)[0]):
                out.append(([formula.E(formula.one(r))], fs))
        return out
    sub = formula.Sub()
    try:
        formula.judge_list(sub, "", "", "", outs, kind, [formula.size(formula.E(formula.one(lst)))], spec, VOC, I)
    except (formula.Undecided, KeyError, IndexError, TypeError, AttributeError, ValueError) as ex:
        return None, str(ex)
    return sub.ok, sub.detail


def kinds(p, f, g):
    """[(class, the scalar query of its objects)] for the class and those derived from it"""
    if not f.get("rec"):
        return [(None, g)]
    out = [(f["rec"], g)]
    over = set()
    todo = [g["id"]]
    while todo:
        for x in p.overriders.get(todo.pop(), []):
            if x not in over:
                over.add(x)
                todo.append(x)
    mine = set()
    todo = [f["id"]]
    while todo:
        for x in p.overriders.get(todo.pop(), []):
            if x not in mine:
                mine.add(x)
                todo.append(x)
    hidden = {p.funcs[x]["rec"] for x in mine if x in p.funcs}
    for x in sorted(over):
        h = p.funcs.get(x)
        if h is not None and "body" in h and h["rec"] not in hidden:
            out.append((h["rec"], h))
    return out


def judge(c, p, f, gs, cachef=None):
    g, k = gs[0]
    if g is not None:
        for cls, h in kinds(p, f, g):
            if cls == f.get("rec"):
                continue
            ok, why = deep(c, p, f, h, k, cls)
            c.functions.add(h["id"])
            if ok is not None:
                c.ob("element i is the query at element i, for derived classes", where(f), "%s of a %s" % (sig(f), short(cls)), ok, why)
    judge1(c, p, f, gs, cachef)


def judge1(c, p, f, gs, cachef=None):
    this = S(mk("obj", f["rec"])) if f.get("rec") else None
    g, k = gs[0]
    I = Interp(p, Opaque())
    outs = I.run(f, this=this)
    lst = mk("param", f["params"][k]["name"])
    sizes = {mk("size", lst)}
    for w, o in outs:
        if o != "return":
            continue
        for r in (w.ret or frozenset()):
            if r.op == "param" and r != lst:
                continue
            if r.op == "m" and S(lst) in r.a[1:] and g is not None:
                gv = values(p, g, this, [S(mk("param", x["name"])) for x in g["params"]])
                ren = {mk("param", g["params"][k]["name"]): lst}
                if len(gv) == 1:
                    h = next(iter(gv))
                    if h.op == "m" and len(h.a) == len(r.a):
                        ok = h.a[0] == r.a[0] and all(rename(x, ren) == y for x, y in zip(h.a[1:], r.a[1:]))
                        c.ob("element i is the query at element i", where(f), sig(f), ok, "passed on to %s, the query for one argument to %s" % (show(r), show(h)))
                        continue
            if r.op != "rec" or len(r.a) < 2 or not isinstance(r.a[1], T):
                c.ob("element i is the query at element i", where(f), sig(f), None, "returns " + show(r)[:120])
                continue
            tag = r.a[1]
            items = dict(r.a[0])
            if tag.op == "sized" and len(tag.a[0]) == 1:
                n = next(iter(tag.a[0]))
                ok = n in sizes
                if not ok and n.op == "size":
                    ok = False
                elif not ok:
                    ok = None if not plain(n, lst) else False
                c.ob("the result has the size of the argument", where(f), sig(f), ok, "its size is " + show(n))
            phs = [x for x in items if isinstance(x, T) and any(y.op == "phi" for y in subterms(x))]
            if len(phs) != 1:
                c.ob("element i is the query at element i", where(f), sig(f), None, "elements stored at %d different indices" % len(phs))
                continue
            ix = phs[0]
            ph = [y for y in subterms(ix) if y.op == "phi"]
            vs = items[ix] - {mk("dflt")}
            if len(ph) != 1 or not vs:
                c.ob("element i is the query at element i", where(f), sig(f), None)
                continue
            cov, det = coverage.counter(I, ph[0], sizes, w.facts)
            if cov == "down":
                cov = True if coverage.minus1(ix, ph[0]) else None
            elif ix != ph[0] and cov is True:
                cov, det = (False, "elements are stored at %s" % show(ix)) if ix.op == "bin" and ix.a[2].op == "lit" else (None, "elements are stored at %s" % show(ix))
            c.ob("every element is calculated", where(f), sig(f), cov, det)
            arg = mk("idx", lst, ix)
            for v in vs:
                ok, why = isquery(p, f, g, k, v, arg, this, cachef)
                if ok is None and g is not None:
                    ok, why = deep(c, p, f, g, k, f.get("rec"))
                c.ob("element i is the query at element i", where(f), sig(f), ok, "element is %s" % show(v)[:160] if not why else why)


def rename(v, ren):
    return frozenset(ren.get(t, t) for t in v) if isinstance(v, frozenset) else v


def plain(n, lst):
    return n.op == "bin" and n.a[1] == mk("size", lst) and n.a[2].op == "lit" or n.op == "lit"


def isquery(p, f, g, k, v, arg, this, cachef):
    if cachef:
        if v.op == "m" and v.a[0].endswith("::operator()"):
            want = (S(mk("f", next(iter(this)), cachef)), S(arg))
            return tuple(v.a[1:]) == want, ""
        return None, ""
    want = [S(mk("param", x["name"])) if i != k else S(arg) for i, x in enumerate(f["params"])]
    if v.op == "m":
        rest = list(v.a[1:])
        if rest and this is not None and rest[0] == this and v.a[0] == g["q"]:
            if rest[1:] == want:
                return True, ""
        elif v.a[0] == g["q"] and rest == want:
            return True, ""
    # another way to the same value: compare with what the scalar query returns
    gv = values(p, g, this, want)
    if v in gv:
        return (True, "") if len(gv) == 1 else (None, "")
    # the callee's own value
    hv = set()
    if v.op == "m":
        for h in p.by_q.get(v.a[0], []):
            if "body" in h and len(v.a) - 1 in (len(h["params"]), len(h["params"]) + 1):
                th = v.a[1] if len(v.a) - 1 == len(h["params"]) + 1 else None
                if th is None or th == this:
                    hv |= values(p, h, th, list(v.a[2:] if th is not None else v.a[1:]))
        if hv and hv == gv:
            return True, ""
        if hv or v.a[0] == g["q"]:
            return False, "element is %s instead of %s at %s" % (show(v)[:160], g["name"], show(arg))
    if all(x.op in ("m", "idx", "param", "obj", "f", "phi", "v", "lit", "bin", "un", "ext") for x in subterms(v)) and v.op in ("idx", "lit", "m"):
        return False, "element is %s instead of %s at %s" % (show(v)[:160], g["name"], show(arg))
    return None, ""
