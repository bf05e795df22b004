"""C20: the Python classes answer with what the library answers."""
from fractions import Fraction
from ..scriptcheck import *

RULE = ("Every method of pyslat's classes and every function of the module is read abstractly from its source, for numbers and for lists, "
        "several times for the same object: which query of the library's object is its answer, made again each time. Constants are "
        "compared with the library's. The generators of points are reduced to start, step and bound in normal form.")

Q = "the answer is the library's own answer"
A = "the answer is asked for anew"
W = "the object wraps what its definition describes"
M = "a setting reaches the library"
K = "a constant is the library's"
P = "points are evenly spaced from the first to the last"
S_ = "a structure has components of one intensity measure"
G = "an object gives what it was made from"

x_, y_, p_ = (mk("sym", "arg." + n) for n in "xyp")

# class: {method: (native query, argument kinds)}; n a number, v a number or a list
QUERIES = {
    "lognormaldist": {"mean": ("get_mean_X", ""), "median": ("get_median_X", ""), "mean_ln": ("get_mu_lnX", ""),
                      "sd": ("get_sigma_X", ""), "sd_ln": ("get_sigma_lnX", "")},
    "detfn": {"ValueAt": ("ValueAt", "n")},
    "probfn": {"Mean": ("Mean", "n"), "MeanLn": ("MeanLn", "n"), "Median": ("Median", "n"), "SD_ln": ("SD_ln", "n"), "SD": ("SD", "n"),
               "X_at_exceedence": ("X_at_exceedence", "nn")},
    "im": {"getlambda": ("get_lambda", "v"), "pRepair": ("pRepair", "v"), "pCollapse": ("pCollapse", "v"), "pDemolition": ("pDemolition", "v"),
           "CollapseRate": ("CollapseRate", ""), "DemolitionRate": ("DemolitionRate", "")},
    "edp": {"Mean": ("Mean/bulk_Mean", "v"), "MeanLn": ("MeanLn/bulk_MeanLn", "v"), "Median": ("Median/bulk_Median", "v"),
            "SD_ln": ("SD_ln/bulk_SD_ln", "v"), "SD": ("SD/bulk_SD", "v"), "getlambda": ("get_lambda", "v"),
            "X_at_exceedence": ("X_at_exceedence", "nn")},
    "fragfn": {"pExceeded": ("pExceeded", "n")},
    "compgroup": {"E_Cost_EDP": ("E_Cost_EDP", "n"), "SD_ln_Cost_EDP": ("SD_ln_cost_EDP", "n"), "E_Cost_IM": ("E_Cost_IM", "n"),
                  "SD_ln_Cost_IM": ("SD_ln_Cost_IM", "n"), "E_cost": ("E_cost", "nn"), "E_annual_cost": ("E_annual_cost", ""),
                  "lambda_cost": ("lambda_cost", "n"), "pDS_IM": ("pDS_IM", "n"), "E_Delay_IM": ("E_Delay_IM", "n"),
                  "E_Delay_EDP": ("E_Delay_EDP", "n"), "SD_ln_Delay_IM": ("SD_ln_Delay_IM", "n"), "SD_ln_Delay_EDP": ("SD_ln_Delay_EDP", "n"),
                  "Rate": ("Rate", "")},
    "structure": {"pdf": ("pdf", "n"), "E_cost": ("E_cost", "nn"), "DeaggregatedCost": ("DeaggregatedCost", "n"),
                  "ComponentsByEDP": ("ComponentsByEDP", ""), "ComponentsByFragility": ("ComponentsByFragility", ""),
                  "Clear_Cache": ("Clear_Cache", "")},
}
# structure's, as lognormaldist: the distribution the answer stands for
DISTRIBUTIONS = {"getRebuildCost": ("getRebuildCost", ""), "getDemolitionCost": ("getDemolitionCost", ""), "Cost": ("Cost", "nn"),
                 "TotalCost": ("TotalCost", "n"), "AnnualCost": ("AnnualCost", "")}
SETTERS = {"im": ("SetCollapse", "SetDemolition"), "structure": ("setRebuildCost", "setDemolitionCost")}
FUNCTIONS = {  # function: (native, arguments: n as it is, i converted to a whole number)
    "factory2": ("factory2", "nn"), "factory3": ("factory3", "nnn"), "MakeLogNormalProbabilisticFn": ("MakeLogNormalProbabilisticFn", "nnnn"),
    "MakeIM": ("MakeIM", "n"), "MakeEDP": ("MakeEDP", "nnn"), "MakeCompoundEDP": ("MakeCompoundEDP", "nnnn"),
    "MakeFragilityFn": ("MakeFragilityFn", "n"), "MakeSimpleLossFn": ("MakeSimpleLossFn", "n"), "MakeBiLevelLossFn": ("MakeBiLevelLossFn", "n"),
    "MakeBiLevelLoss": ("MakeBiLevelLoss", "nnnnn"),
    "MakeStructure": ("MakeStructure", ""), "MakeLogNormalDist": ("MakeLogNormalDist", "nnnn"), "DefaultLogNormalDist": ("MakeLogNormalDist", ""),
    "IntegrationSettings": ("IntegrationSettings", "nn"), "Set_Integration_Tolerance": ("Set_Integration_Tolerance", "n"),
    "Set_Integration_Eval_Limit": ("Set_Integration_Eval_Limit", "i"), "Set_Integration_Search_Limit": ("Set_Integration_Search_Limit", "i"),
    "Set_Integration_Method": ("Set_Integration_Method", "n"), "Reset_Statistics": ("reset_statistics", ""),
    "Format_Statistics": ("format_statistics", ""), "LogToStdErr": ("LogToStdErr", "n"), "SetLogFile": ("SetLogFile", "n"),
}
SETTINGS = {"Set_Integration_Tolerance", "Set_Integration_Eval_Limit", "Set_Integration_Search_Limit", "Set_Integration_Method", "Reset_Statistics",
            "LogToStdErr", "SetLogFile"}
CONSTANTS = {"FUNCTION_TYPE": ("NLH", "PLC", "LIN", "LOGLOG"), "LOGNORMAL_MU_TYPE": ("MEAN_X", "MEDIAN_X", "MEAN_LN_X"),
             "LOGNORMAL_SIGMA_TYPE": ("SD_X", "SD_LN_X"),
             "INTEGRATION_METHOD": ("BINARY_SUBDIVISION", "REVERSE_BINARY_SUBDIVISION", "LOW_FIRST_REVERSE_BINARY_SUBDIVISION", "SCATTERED", "DIRECTED")}


def sym(n):
    return mk("sym", "arg." + n)


def lst(*a):
    return LList([("v", x) for x in a])


def none_of(case, x):
    """A loss of nothing: the case says the number is 0."""
    for k, v in case.facts.items():
        if len(k) > 1 and k[1] is x and (k[0] == "true" and not v or k[0] == "eq" and k[2] == 0 and v):
            return True
    return False


class Model:
    """One object of each class, made by the constructors."""
    def __init__(self, case):
        self.s = s = Session(case, interpreter=False)
        self.I = I = s.I
        self.ns = ns = s.ps.ns
        f = ns.get("ClearCaches")
        if isinstance(f, Fn):
            I.call(f, [], {})
        opts = LDict()
        opts.entries += [["mu", core("MEAN_LN_X"), None], ["sd", core("SD_LN_X"), None]]
        mkd = lambda i, a, b: Call("MakeLogNormalDist", sym(a), core("MEAN_LN_X"), sym(b), core("SD_LN_X"))
        self.made = {}
        self.failed = {}

        def new(key, cls, args, want, **made):
            if not isinstance(ns.get(cls), (Cls, Fn)):
                return None
            try:
                o = I.call(ns[cls], args, {})
            except PyRaise as e:
                self.failed[key] = "%s %s" % (e.kind, show(e.value))
                return None
            self.made[key] = (o, want() if callable(want) else want, made)
            return o

        def fn(key):
            o = self.made.get(key)
            return s.method(o[0], "function") if o else mk("sym", "none." + key)
        g = lambda k: self.made[k][0] if k in self.made else None
        for t, e in (("power law", "PLC"), ("hyperbolic", "NLH")):
            new("detfn " + t, "detfn", ["d" + e, t, lst(sym("a"), sym("b"))], Call("factory2", core(e), L(("v", sym("a")), ("v", sym("b")))))
        for t, e in (("loglog", "LOGLOG"), ("linear", "LIN")):
            new("detfn " + t, "detfn", ["d" + e, t, lst(lst(sym("a"), sym("b")), lst(sym("c"), sym("d")))],
                Call("factory3", core(e), L(("v", sym("a")), ("v", sym("b"))), L(("v", sym("c")), ("v", sym("d")))))
        d1, d2 = g("detfn power law"), g("detfn hyperbolic")
        for m in ("MEAN_X", "MEDIAN_X", "MEAN_LN_X"):
            for q in ("SD_X", "SD_LN_X"):
                new("probfn %s %s" % (m, q), "probfn", ["p", "lognormal", lst(core(m), d1), lst(core(q), d2)],
                    Call("MakeLogNormalProbabilisticFn", fn("detfn power law"), core(m), fn("detfn hyperbolic"), core(q)))
        new("probfn 2", "probfn", ["p2", "lognormal", lst(core("MEAN_X"), d2), lst(core("SD_X"), d1)],
            Call("MakeLogNormalProbabilisticFn", fn("detfn hyperbolic"), core("MEAN_X"), fn("detfn power law"), core("SD_X")))
        pf, pf2 = g("probfn MEAN_LN_X SD_LN_X"), g("probfn 2")
        fp, fp2 = fn("probfn MEAN_LN_X SD_LN_X"), fn("probfn 2")
        im1 = new("im", "im", ["i1", d1], Call("MakeIM", fn("detfn power law")))
        im2 = new("im 2", "im", ["i2", d2], Call("MakeIM", fn("detfn hyperbolic")))
        for n, i, im_, k in (("edp", "e1", im1, "im"), ("edp 2", "e2", im2, "im 2"), ("edp 3", "e3", im1, "im")):
            new(n, "edp", [i, im_, pf], Call("MakeEDP", fn(k), fp, i), get_IM=im_)
        new("compound edp", "edp", ["ec", im1, pf, pf2],
            Call("MakeCompoundEDP", fn("im"), Call("MakeEDP", fn("im"), fp, "ec"), Call("MakeEDP", fn("im"), fp2, "ec"), "ec"), get_IM=im1)
        new("anonymous edp", "edp", [None, im1, pf], None, get_IM=im1)
        fr = new("fragfn", "fragfn_user", ["f", opts, lst(lst(sym("a"), sym("b")), lst(sym("c"), sym("d")))],
                 Call("MakeFragilityFn", L(("v", mkd(0, "a", "b")), ("v", mkd(1, "c", "d")))), size=2)
        zero = Call("MakeLogNormalDist")
        co = new("lossfn", "simplelossfn", ["c", opts, lst(lst(sym("a"), sym("b")), lst(0, 0))],
                 lambda: Call("MakeSimpleLossFn", L(("v", zero if none_of(case, sym("a")) else mkd(0, "a", "b")), ("v", zero))))
        bl = lambda *a: Call("MakeBiLevelLoss", *[sym(z) for z in a])
        de = new("lossfn bilevel", "bilevellossfn", ["b", lst(lst(*[sym(z) for z in "abcde"]), lst(*[sym(z) for z in "fghij"]))],
                 Call("MakeBiLevelLossFn", L(("v", bl(*"abcde")), ("v", bl(*"fghij")))))
        N, ca, da = sym("count"), sym("cost_adj"), sym("delay_adj")
        for key, i, e, c_, d_ in (("compgroup", "g1", "edp", co, de), ("compgroup no delay", "g2", "edp", co, None), ("compgroup 2", "g3", "edp 2", co, de),
                                  ("compgroup 3", "g4", "edp 3", co, de), ("anonymous compgroup", None, "edp", co, de)):
            none = I.call(ns["MakeSimpleLossFn"], [LList([("star", I.call(I.b["range"], [Method(fn("fragfn"), "n_states")], {}), zero)])], {}) if d_ is None else None
            new(key, "compgroup", [i, g(e), fr, c_, d_, N, ca, da],
                i and Call("MakeCompGroup", fn(e), fn("fragfn"), fn("lossfn"), fn("lossfn bilevel") if d_ else none, N, ca, da, i),
                get_IM=(g(e) and self.made[e][2]["get_IM"]), fragfn=fr, size=2)
        new("structure", "structure", ["s"], Call("MakeStructure"))
        new("lognormaldist", "lognormaldist", [sym("dist")], sym("dist"))
        case.effects = []

    def native(self, key):
        o = self.made[key][0]
        if key == "lognormaldist":
            return self.made[key][1]
        if key == "structure":
            return self.made[key][1]
        return self.s.method(o, "function")


KEYS = {"detfn": "detfn power law", "probfn": "probfn MEAN_X SD_LN_X"}
ALSO = {"edp": ["compound edp"], "compgroup": ["compgroup no delay"], "detfn": ["detfn linear"], "probfn": ["probfn 2"], "lognormaldist": [],
        "im": ["im 2"], "fragfn": [], "structure": []}


def place(m, o, name):
    f, c = o.cls.find(name)
    return ("src/pyslat.py:%d" % f.node.lineno) if isinstance(f, Fn) else "src/pyslat.py"


def run(thorough=False):
    c = Check("C20", RULE, thorough)
    t = Tally(c)
    each(c, t, wraps)
    for cls, qs in QUERIES.items():
        for key in [KEYS.get(cls, cls)] + ALSO[cls]:
            for meth, (native, kinds) in qs.items():
                for k in (("number", "list") if "v" in kinds else ("number",)):
                    each(c, t, lambda c, t, m: query(c, t, m, key, cls, meth, native, kinds, k))
    for meth, (native, kinds) in DISTRIBUTIONS.items():
        each(c, t, lambda c, t, m: distribution(c, t, m, meth, native, kinds))
    each(c, t, fates)
    for cls, ms in SETTERS.items():
        for meth in ms:
            each(c, t, lambda c, t, m: setter(c, t, m, cls, meth))
    for name in FUNCTIONS:
        each(c, t, lambda c, t, m: function(c, t, m, name))
    each(c, t, components)
    each(c, t, constants)
    each(c, t, points)
    t.done()
    c.need(Q, 40)
    c.need(A, 30)
    c.need(W, 8)
    c.need(M, 8)
    c.need(K, 10)
    return c.finish()


def each(c, t, f):
    def go(case):
        m = None
        try:
            m = Model(case)
            f(c, t, m)
        except Undecided as e:
            t.add(Q, "src/pyslat.py", "the Python classes", None, str(e), "")
        except PyRaise as e:
            t.add(Q, "src/pyslat.py", "the Python classes", None, e.kind, "")
        if m is not None:
            c.functions |= m.I.functions
    for case, r in cases(go):
        pass


def wraps(c, t, m):
    for key, e in m.failed.items():
        t.add(W, "src/pyslat.py", key, False, "is refused: " + e, "")
    for key, (o, want, made) in m.made.items():
        if want is not None and key not in ("lognormaldist", "structure"):
            w = m.s.method(o, "function")
            ok, d = agree(w, want)
            t.add(W, place(m, o, "__init__"), key, ok, d, "")
        for a, v in made.items():
            r = m.s.method(o, a)
            t.add(G, place(m, o, a), "%s.%s" % (key, a), r is v or concrete(r) and r == v, "%s gives %s" % (a, show(freezable(r))), "")


def called(m):
    """Records the calls of the library."""
    log = []

    def hook(f, a, kw):
        if isinstance(f, Term):
            log.append(canon(mk("call", f, tuple(freezable(x) for x in a), ())))
        return MISSING
    m.I.extern_call = hook
    return log


def args(m, kinds, k, n):
    out = []
    for i, x in enumerate(kinds):
        v = mk("sym", "arg.%s%d%d" % ("list" if k == "list" and x == "v" else "x", i, n))
        m.I.kinds[v] = "list" if k == "list" and x == "v" else "float"
        out.append(v)
    return out


def ask(m, o, meth, a):
    try:
        return m.s.method(o, meth, *a), None
    except PyRaise as e:
        return None, "%s %s" % (e.kind, show(e.value) if e.value is not None else "")


def query(c, t, m, key, cls, meth, native, kinds, k):
    if key not in m.made:
        return
    o = m.made[key][0]
    w = m.native(key)
    what = "%s.%s" % (cls, meth)
    if not isinstance(o.cls.find(meth)[0], Fn):
        t.add(Q, "src/pyslat.py", what, False, "there is no such method", "")
        return
    at = place(m, o, meth)
    one, many = (native.split("/") + [native])[:2]
    log = called(m)
    for n in (0, 1, 0):
        a = args(m, kinds, k, n)
        del log[:]
        r, e = ask(m, o, meth, a)
        if e:
            t.add(Q, at, what, False, "raises %s" % e, k)
            return
        if k == "list":
            q = Method(w, many, *a)
            el = m.I.call(m.I.b["list"], [m.I.call(m.I.b["map"], [mk("attr", freezable(w), one), a[0]], {})], {})
            # one by one, and all at once where the library does that
            alts = [q, m.I.call(m.I.b["list"], [q], {}), el]
        else:
            q = Method(w, one, *a)
            alts = [q]
        res = [agree(r, x) for x in alts]
        ok = True if any(x[0] for x in res) else None if any(x[0] is None for x in res) else False
        if r is None and meth == "Clear_Cache":
            ok = any(x is canon(q) for x in log)
        t.add(Q, at, what, ok, res[0][1], k)
        if ok:
            qs = {canon(q).a[0]} | {mk("attr", canon(w), one)}
            t.add(A, at, what, any(x.a[0] in qs for x in log), "an earlier answer is given again", k)


def unwrapped(m, r):
    """The library's distribution an answer stands for: what its statistics ask."""
    cls = m.ns.get("lognormaldist")
    if isinstance(r, Obj) and r.cls is cls:
        for meth, (native, _) in QUERIES["lognormaldist"].items():
            v = freezable(m.s.method(r, meth))
            if isinstance(v, Term) and v.op == "call" and v.a[0].op == "attr" and v.a[0].a[1] == native:
                return v.a[0].a[0]
    return None


def distribution(c, t, m, meth, native, kinds):
    if "structure" not in m.made:
        return
    o = m.made["structure"][0]
    at, what = place(m, o, meth), "structure." + meth
    log = called(m)
    for n in (0, 1, 0):
        a = args(m, kinds, "number", n)
        del log[:]
        r, e = ask(m, o, meth, a)
        if e:
            t.add(Q, at, what, False, "raises %s" % e, "")
            return
        q = Method(m.native("structure"), native, *a)
        if n == 0 or True:
            again = any(x is canon(q) for x in log)
        d = unwrapped(m, r)
        if d is None:
            t.add(Q, at, what, None, show(freezable(r)), "")
            continue
        ok, det = agree(d, q)
        t.add(Q, at, what, ok, det, "")
        if ok:
            t.add(A, at, what, again, "an earlier answer is given again", "")


def fates(c, t, m):
    if "structure" not in m.made:
        return
    o = m.made["structure"][0]
    at = place(m, o, "CostsByFate")
    r, e = ask(m, o, "CostsByFate", [x_])
    if e:
        t.add(Q, at, "structure.CostsByFate", False, "raises " + e, "")
        return
    q = Method(m.native("structure"), "CostsByFate", x_)
    vals = r.values() if isinstance(r, LList) and r.plain() else list(r) if isinstance(r, tuple) else None
    if vals is None or len(vals) != 3:
        t.add(Q, at, "structure.CostsByFate", None if vals is None else False, show(freezable(r)), "")
        return
    for i, v in enumerate(vals):
        d = unwrapped(m, v)
        ok, det = (None, show(freezable(v))) if d is None else agree(d, m.I.item(q, i))
        t.add(Q, at, "structure.CostsByFate", ok, det, "fate %d" % i)


def ops(m):
    return operations(m.s.case)


def setter(c, t, m, cls, meth):
    if cls not in m.made:
        return
    o = m.made[cls][0]
    at, what = place(m, o, meth), "%s.%s" % (cls, meth)
    for v in (x_, y_, x_):
        m.s.case.effects = []
        r, e = ask(m, o, meth, [v])
        if e:
            t.add(M, at, what, False, "raises " + e, "")
            return
        got = [z[0] for z in ops(m) if not z[1]]
        want = canon(Method(m.native(cls), meth, v))
        ok = got == [want] or None if any(strange(z) for z in got) else got == [want]
        t.add(M, at, what, ok, "%s, where %s is specified" % (", ".join(show(z) for z in got) or "nothing", show(want)), "")


def function(c, t, m, name):
    f = m.ns.get(name)
    native, kinds = FUNCTIONS[name]
    if not isinstance(f, Fn):
        t.add(M if name in SETTINGS else Q, "src/pyslat.py", name, False, "there is no such function", "")
        return
    at = "src/pyslat.py:%d" % f.node.lineno
    log = called(m)
    for n in (0, 1):
        a = [mk("sym", "arg.%s%d%d" % (name, i, n)) for i in range(len(kinds))]
        del log[:]
        m.s.case.effects = []
        try:
            r = m.I.call(f, list(a), {})
        except PyRaise as e:
            t.add(M if name in SETTINGS else Q, at, name, False, "raises " + e.kind, "")
            return
        alts = [Call(native, *a)]
        if "i" in kinds:
            alts.append(Call(native, *[mk("int", x) if k == "i" else x for x, k in zip(a, kinds)]))
        if name in SETTINGS:
            hit = [x for x in log if any(x is canon(y) for y in alts)]
            ok = len(log) == 1 and bool(hit)
            t.add(M, at, name, True if ok else None if any(strange(x) for x in log) else False,
                  "%s, where %s is specified" % (", ".join(show(x) for x in log) or "nothing", show(alts[-1])), "")
        else:
            res = [agree(r, y) for y in alts]
            ok = True if any(x[0] for x in res) else None if any(x[0] is None for x in res) else False
            t.add(Q, at, name, ok, res[-1][1], "")


def components(c, t, m):
    """AddCompGroup and RemoveCompGroup."""
    need = ("structure", "compgroup", "compgroup 2", "compgroup 3")
    if any(k not in m.made for k in need):
        return
    o, g1, other, g3 = (m.made[k][0] for k in need)
    at = place(m, o, "AddCompGroup")
    st = m.native("structure")

    def step(meth, g, key, wanted, text):
        m.s.case.effects = []
        r, e = ask(m, o, meth, [g])
        got = [z[0] for z in ops(m) if not z[1]]
        want = canon(Method(st, meth, m.native(key)))
        if not wanted:
            t.add(S_, at, "structure." + meth, e is not None and not got, "%s: %s" % (text, ", ".join(show(z) for z in got) or "nothing is reported"), text)
        else:
            t.add(M, place(m, o, meth), "structure." + meth, e is None and got == [want],
                  "%s: %s, where %s is specified" % (text, e or ", ".join(show(z) for z in got) or "nothing", show(want)), text)
    step("AddCompGroup", g1, "compgroup", True, "the first group")
    t.add(S_, place(m, o, "get_IM"), "structure.get_IM", m.s.method(o, "get_IM") is m.made["im"][0], "after the first group", "")
    step("AddCompGroup", other, "compgroup 2", False, "a group of another intensity measure")
    step("AddCompGroup", g3, "compgroup 3", True, "another group")
    t.add(S_, place(m, o, "get_IM"), "structure.get_IM", m.s.method(o, "get_IM") is m.made["im"][0], "after the second group", "")
    step("RemoveCompGroup", g1, "compgroup", True, "a group removed")
    step("AddCompGroup", g1, "compgroup", True, "and added again")


def constants(c, t, m):
    for cls, names in CONSTANTS.items():
        k = m.ns.get(cls)
        for n in names:
            v = None
            if isinstance(k, Cls):
                v, _ = k.find(n)
            t.add(K, "src/pyslat.py", "%s.%s" % (cls, n), v is core(n), "is %s" % show(freezable(v)) if v is not None else "is missing", "")


# ---------------------------------------------------------------- points

class Lin:
    """A rational function, as numerator over denominator: dicts of monomials."""
    def __init__(self, n, d=None):
        self.n, self.d = n, d or {(): Fraction(1)}

    def __add__(a, b):
        return Lin(padd(pmul(a.n, b.d), pmul(b.n, a.d)), pmul(a.d, b.d))

    def __neg__(a):
        return Lin({k: -v for k, v in a.n.items()}, a.d)

    def __sub__(a, b):
        return a + -b

    def __mul__(a, b):
        return Lin(pmul(a.n, b.n), pmul(a.d, b.d))

    def __truediv__(a, b):
        return Lin(pmul(a.n, b.d), pmul(a.d, b.n))

    def __eq__(a, b):
        return padd(pmul(a.n, b.d), {k: -v for k, v in pmul(b.n, a.d).items()}) == {}


def padd(p, q):
    r = dict(p)
    for k, v in q.items():
        r[k] = r.get(k, 0) + v
        if r[k] == 0:
            del r[k]
    return r


def pmul(p, q):
    r = {}
    for k, v in p.items():
        for l, w in q.items():
            e = tuple(sorted(k + l))
            r[e] = r.get(e, 0) + v * w
            if r[e] == 0:
                del r[e]
    return r


def num_(x):
    return Lin({(): Fraction(x)} if x else {})


def var(n):
    return Lin({(n,): Fraction(1)})


def ratio(v, env):
    """A term as a rational function; env: {term: Lin}. Logarithms of products
    are sums, unknown things raise Undecided."""
    if isinstance(v, bool) or v is None or isinstance(v, str):
        raise Undecided("a number")
    if isinstance(v, (int, float)):
        return num_(v)
    if v in env:
        return env[v]
    if v.op == "bin":
        o, l, r = v.a
        if o in "+-*/" or o in ("**", "pow"):
            if o in ("**", "pow"):
                raise Undecided("a power")
            l, r = ratio(l, env), ratio(r, env)
            return l + r if o == "+" else l - r if o == "-" else l * r if o == "*" else l / r
    if v.op == "neg" or v.op == "un" and v.a[0] in ("-", "USub"):
        return -ratio(v.a[-1], env)
    if v.op in ("float", "int") and isinstance(v.a[0], Term):
        if v.op == "float":
            return ratio(v.a[0], env)
    if v.op == "call" and show(v.a[0]) in ("numpy.arange",):
        a = v.a[1]
        if len(a) == 1 or (len(a) in (2, 3) and a[0] == 0 and (len(a) == 2 or a[2] == 1)):
            env.setdefault("count", []).append(a[0] if len(a) == 1 else a[1])
            return var("k")
    if v.op == "call" and show(v.a[0]) == "numpy.linspace" and len(v.a[1]) == 3 and not v.a[2]:
        a, b, n = v.a[1]
        env.setdefault("count", []).append(n)
        a, b, n = ratio(a, env), ratio(b, env), ratio(n, env)
        return a + var("k") * (b - a) / (n - num_(1))
    if v.op == "range" or v.op == "call" and show(v.a[0]) == "range":
        a = v.a if v.op == "range" else v.a[1]
        if len(a) == 1 or (len(a) in (2, 3) and a[0] == 0 and (len(a) == 2 or a[2] == 1)):
            env.setdefault("count", []).append(a[0] if len(a) == 1 else a[1])
            return var("k")
    if v.op in ("each", "elem"):
        return ratio(v.a[0], env)
    if v.op == "pos":
        return ratio(v.a[0], env)
    if v.op == "call" and show(v.a[0]) in ("math.log", "numpy.log") and len(v.a[1]) == 1:
        return logof(v.a[1][0], env)
    if v.op == "elemof":
        return ratio(v.a[0], env)
    raise Undecided("%s" % show(v))


def logof(v, env):
    """The logarithm of a term."""
    if isinstance(v, (int, float)):
        raise Undecided("the logarithm of a number") if v != 1 else None
        return num_(0)
    if v.op in ("each", "elem", "elemof"):
        return logof(v.a[0], env)
    if v.op == "bin" and v.a[0] in "*/":
        l, r = logof(v.a[1], env), logof(v.a[2], env)
        return l + r if v.a[0] == "*" else l - r
    if v.op == "bin" and v.a[0] in ("**", "pow"):
        return logof(v.a[1], env) * ratio(v.a[2], env)
    if v.op == "call" and show(v.a[0]) in ("math.exp", "numpy.exp") and len(v.a[1]) == 1:
        return ratio(v.a[1][0], env)
    if v.op == "call" and show(v.a[0]) == "numpy.geomspace" and len(v.a[1]) == 3 and not v.a[2]:
        a, b, n = v.a[1]
        env.setdefault("count", []).append(n)
        a, b, n = logof(a, env), logof(b, env), ratio(n, env)
        return a + var("k") * (b - a) / (n - num_(1))
    if v.op == "sym":
        return var("log " + v.a[0])
    raise Undecided("the logarithm of %s" % show(v))


def sequence(m, l):
    """(source, element) of a list made in one loop."""
    l = m.I.call(m.I.b["list"], [l], {}) if not isinstance(l, LList) else l
    if isinstance(l, LList):
        if len(l.parts) == 1 and l.parts[0][0] == "star":
            return freezable(l.parts[0][1]), freezable(l.parts[0][2])
        if len(l.parts) == 1 and l.parts[0][0] == "splice":
            return freezable(l.parts[0][1]), freezable(l.parts[0][1])
        if all(p[0] == "v" for p in l.parts):
            return None, None
    raise Undecided("points made in parts")


def points(c, t, m):
    a, b, z = sym("first"), sym("last"), sym("third")
    for k in (a, b, z):
        m.I.kinds[k] = "float"
    for name in ("frange", "linrange", "logrange"):
        f = m.ns.get(name)
        if not isinstance(f, Fn):
            t.add(P, "src/pyslat.py", name, False, "there is no such function", "")
            continue
        at = "src/pyslat.py:%d" % f.node.lineno
        try:
            if name == "linrange" or name == "logrange":
                m.I.kinds[z] = "int"
            l = m.I.call(f, [a, b, z], {})
            src, e = sequence(m, l)
            if src is None:
                t.add(P, at, name, False, "a fixed number of points", "")
                continue
            first, last, third, k = var("first"), var("last"), var("third"), var("k")
            env = {a: first, b: last, z: third}
            step = third if name == "frange" else (last - first) / (third - num_(1))
            if src.op == "progression":
                init, nxt, cond = src.a
                car = mk("carried")
                i0 = ratio(init, env)
                s = ratio(nxt, dict(env, **{})) if False else None
                e2 = dict(env)
                e2[car] = var("c")
                s = ratio(nxt, e2) - var("c")
                e3 = dict(env)
                e3[car] = i0 + k * s
                val = ratio(e, e3) if name != "logrange" else logof(e, e3)
                if cond.op != "cmp" or cond.a[0] not in ("<", "<=", ">", ">="):
                    raise Undecided("the bound")
                o, l_, r_ = cond.a
                l_, r_ = ratio(l_, e3), ratio(r_, e3)
                room = r_ - l_ if o in ("<", "<=") else l_ - r_
                # room = last + part * step - point, with 0 < part < 1
                part = (room - last + first + k * step) / step
                bound = None
                for q in range(1, 100):
                    if part == num_(Fraction(q, 100)):
                        bound = True
                if part == num_(Fraction(1, 3)) or part == num_(Fraction(1, 4)) or part == num_(Fraction(2, 3)):
                    bound = True
                if bound is None:
                    # a fixed part not within (0, 1), or another bound altogether
                    bound = False
                count = "bound"
            else:
                e3 = dict(env)
                val = ratio(e, e3) if name != "logrange" else logof(e, e3)
                n = e3.get("count")
                if not n:
                    raise Undecided("how many points")
                if name == "frange":
                    raise Undecided("how many points frange gives")
                bound = all(ratio(x, env) == third for x in n)
                count = "count"
            if name == "logrange":
                la, lb = var("log arg.first"), var("log arg.last")
                want = la + k * (lb - la) / (third - num_(1))
            else:
                want = first + k * step
            t.add(P, at, name, val == want, "the points are %s" % show(e), "value")
            t.add(P, at, name, bool(bound), "the %s is not that of the last point: %s" % (count, show(src)), "last")
        except PyRaise as e:
            t.add(P, at, name, False, "raises %s" % e.kind, "")
        except Undecided as e:
            t.add(P, at, name, None, str(e), "")
