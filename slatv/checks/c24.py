"""C24: what the user builds is what the user described."""
from .. import binding
from ..binding import *
from .c25 import consts

RULE = ("Every function of the Python binding which makes an object is interpreted abstractly for each of the choices it offers "
        "(enumerators), with its data symbolic; the library object it returns is written out as the class constructed and the "
        "values of the constructor's arguments, and compared with what the choice stands for. The constructors are "
        "interpreted too: each argument must end in the member that plays its part. Data a function cannot be made from, and "
        "choices it does not offer, must not return.")

B = "the object built is of the kind and from the data named"
K = "a constructor keeps each argument in its place"
X = "what cannot be built is refused"
P = "a part set later is the part given"


def wrap(x): return mk("wrap", S(x))
def built(cls, *a): return mk("built", "SLAT::" + cls, *[S(term(x)) for x in a])


def run_(c, p, q, n=None):
    fs = [f for f in p.fn(q) if "body" in f and BIND in f["file"] and (n is None or len(f["params"]) == n)]
    return fs[0] if len(fs) == 1 else None


def run_all(c, p, q, args, want, what, n=None, refused=False):
    f = run_(c, p, q, n)
    if f is None:
        return
    a = [S(args[i]) if i in args else S(mk("param", "a%d" % i)) for i in range(len(f["params"]))]
    what = "%s: %s" % (f["q"], what) if what else sig(f)
    rule = X if refused else B

    def go():
        outs, I = binding.run(p, f, args=a)
        c.functions |= I.inlined | {f["id"]}
        if refused:
            rets = [(w, o) for w, o in outs if o == "return" and refused(w)]
            vs = [show(one_or_top(Resolver(p, I, w).vals(w.ret or frozenset())))[:100] for w, o in rets]
            known = all(known_facts(w) for w, o in rets)
            c.ob(rule, where(f), what, not rets if known else None, "returns %s" % ", ".join(vs))
            return
        judge_built(c, rule, where(f), what, outs, p, I, want)
    guarded(c, rule, where(f), what, go)


def known_facts(w):
    return all(t.op in ("eq", "lt", "le", "isnull", "empty") and all(x.op in ("size", "lit", "param") for x in t.a) for t, v in w.facts)


def judge_built(c, rule, at, what, outs, p, I, want):
    """want(facts) -> term with lists written as ("list", spec)"""
    bad = und = None
    n = 0
    for w, o in outs:
        if o != "return":
            continue
        ws = want(w)
        if ws is None:
            continue
        n += 1
        R = Resolver(p, I, w)
        vs = R.vals(w.ret or frozenset())
        if len(vs) != 1:
            und = und or "several values"
            continue
        r, d = match(c, I, w, one(vs), ws)
        if r is False:
            bad = bad or d
        elif r is None:
            und = und or d
    c.ob(rule, at, what, False if bad else None if und or not n else True, bad or und or ("" if n else "nothing is returned"))


class L:
    """A list of a given size with given elements."""
    __slots__ = ("size", "elem")

    def __init__(self, size, elem):
        self.size, self.elem = size, elem


def B_(cls, *a): return ("built", "SLAT::" + cls, list(a))
def W_(x): return ("wrap", x)


def match(c, I, w, v, want):
    if isinstance(want, L):
        if v == want.size.a[0] and want.elem is None:
            return True, ""
        w2 = w.copy()
        w2.ret = S(strip(v))
        box = [None, ""]

        class Sub:
            def ob(self, rule, at, what, ok, detail="", key=None):
                box[:] = [ok, detail]
        judge_list(Sub(), B, "", "", [(w2, "return")], "num", E(want.size), lambda i, f: E(want.elem(i.t)), I=I)
        return box[0], "the list: " + str(box[1])
    if isinstance(want, tuple):
        if v.op == "wrap" and want[0] == "wrap":
            return match(c, I, w, one_or_top(v.a[0]), want[1])
        if v.op == "built" and want[0] == "built":
            if v.a[0] != want[1]:
                return False, "a %s, specified: %s" % (short(v.a[0]), short(want[1]))
            if len(v.a) - 1 != len(want[2]):
                return None, "constructed from %d values" % (len(v.a) - 1)
            und = None
            for k, (x, y) in enumerate(zip(v.a[1:], want[2])):
                r, d = match(c, I, w, one_or_top(x), y)
                if r is False:
                    return False, "argument %d of %s: %s" % (k + 1, short(want[1]), d)
                und = und or (d if r is None else None)
            return (None, und) if und else (True, "")
        if want[0] == "call" and v.op == "m":
            if last(v.a[0]) != want[1]:
                return False, "%s, specified: %s" % (show(v)[:100], want[1])
            for x, y in zip(v.a[1:], want[2]):
                r, d = match(c, I, w, one_or_top(x), y)
                if r is not True:
                    return r, d
            return True, ""
        sure = all(x.op in OPS for x in subterms(v))
        return (False if sure else None), "%s, specified: %s" % (show(v)[:120], want[1])
    want = norm_calls(term(want))
    v = norm_calls(v)
    if v == want:
        return True, ""
    return (False if all(x.op in OPS for x in subterms(v)) else None), "%s, specified: %s" % (show(v)[:120], show(want)[:120])


def strip(t):
    """A list without the values its elements have before they are set."""
    return t


def run_check(c, m):
    p = m.p
    a = [mk("param", "a%d" % i) for i in range(8)]
    g = lambda x, n: mk("f", x, n)
    wf = {k: wrapper_field(p, k)[0] for k in ("DeterministicFn", "ProbabilisticFn", "LogNormalDist", "BiLevelLoss", "IM", "EDP", "FragilityFn", "LossFn",
                                              "CompGroup", "Structure") if wrapper_field(p, k)}
    F = lambda i, k: g(a[i], wf[k])
    sz = lambda x: mk("size", x)
    lit = lambda v: mk("lit", v)
    always = lambda x: (lambda w: x)
    # functions of one variable
    FT = consts(p.enums.get("FUNCTION_TYPE", {}).get("consts", []))
    at = lambda x, i: mk("idx", x, lit(i))
    sizes = lambda w, s, n: (lambda v: v)(next((v for t, v in w.facts if t.op == "eq" and s in t.a and lit(n) in t.a), None))
    if FT:
        run_all(c, p, "factory2", {0: lit(FT["NLH"])}, always(W_(B_("NonLinearHyperbolicLaw", at(a[1], 2), at(a[1], 1), at(a[1], 0)))), "hyperbolic law")
        run_all(c, p, "factory2", {0: lit(FT["PLC"])}, always(W_(B_("PowerLawParametricCurve", at(a[1], 0), at(a[1], 1)))), "power law")
        run_all(c, p, "factory3", {0: lit(FT["LIN"])}, always(W_(B_("LinearInterpolatedFn", mk("data", a[1]), mk("data", a[2]), sz(a[1])))), "linear interpolation")
        run_all(c, p, "factory3", {0: lit(FT["LOGLOG"])}, always(W_(B_("LogLogInterpolatedFn", mk("data", a[1]), mk("data", a[2]), sz(a[1])))), "log-log interpolation")
        run_all(c, p, "factory2", {0: lit(FT["NLH"])}, None, "hyperbolic law without three parameters", refused=lambda w: sizes(w, sz(a[1]), 3) is not True)
        run_all(c, p, "factory2", {0: lit(FT["PLC"])}, None, "power law without two parameters", refused=lambda w: sizes(w, sz(a[1]), 2) is not True)
        for n in ("LIN", "LOGLOG"):
            run_all(c, p, "factory2", {0: lit(FT[n])}, None, n + " from one list", refused=lambda w: True)
            run_all(c, p, "factory3", {0: lit(FT[n])}, None, n + " with lists of different sizes", refused=lambda w: not samesize(w, sz(a[1]), sz(a[2])))
            run_all(c, p, "factory3", {0: lit(FT[n])}, None, n + " with fewer than two points", refused=lambda w: not atleast(w, (sz(a[1]), sz(a[2])), 2))
        for n in ("NLH", "PLC"):
            run_all(c, p, "factory3", {0: lit(FT[n])}, None, n + " from two lists", refused=lambda w: True)
        other = max(FT.values()) + 1
        for q in ("factory2", "factory3"):
            run_all(c, p, q, {0: lit(other)}, None, "another kind", refused=lambda w: True)
    # lognormal functions and distributions
    MU = consts(p.enums.get("LOGNORMAL_MU_TYPE", {}).get("consts", []))
    SG = consts(p.enums.get("LOGNORMAL_SIGMA_TYPE", {}).get("consts", []))
    M = consts(p.enums.get("SLAT::LogNormalFn::M_TYPE", {}).get("consts", []))
    S_ = consts(p.enums.get("SLAT::LogNormalFn::S_TYPE", {}).get("consts", []))
    same = {"SD_X": "SIGMA_X", "SD_LN_X": "SIGMA_LN_X"}
    how = {("MEAN_LN_X", "SD_LN_X"): "mu_lnX_and_sigma_lnX", ("MEAN_X", "SD_LN_X"): "mean_X_and_sigma_lnX", ("MEDIAN_X", "SD_LN_X"): "median_X_and_sigma_lnX",
           ("MEAN_X", "SD_X"): "mean_X_and_sigma_X"}
    for mu, mv in MU.items():
        for sg, sv in SG.items():
            if mu in M and same.get(sg) in S_ and "DeterministicFn" in wf:
                run_all(c, p, "MakeLogNormalProbabilisticFn", {1: lit(mv), 3: lit(sv)},
                        always(W_(B_("LogNormalFn", F(0, "DeterministicFn"), lit(M[mu]), F(2, "DeterministicFn"), lit(S_[same[sg]])))), "%s and %s" % (mu, sg))
            if (mu, sg) in how:
                run_all(c, p, "MakeLogNormalDist", {1: lit(mv), 3: lit(sv)},
                        always(W_(("call", "LogNormalDist_from_" + how[(mu, sg)], [a[0], a[2]]))), "%s and %s" % (mu, sg), n=4)
            else:
                run_all(c, p, "MakeLogNormalDist", {1: lit(mv), 3: lit(sv)}, always(W_(B_("LogNormalDist"))), "%s and %s: undefined" % (mu, sg), n=4)
    run_all(c, p, "MakeLogNormalDist", {}, always(W_(B_("LogNormalDist"))), "undefined", n=0)
    # the rest of the model
    each = lambda x, k: L(sz(x), lambda i: g(mk("idx", x, i), wf[k]))
    run_all(c, p, "MakeIM", {}, always(W_(B_("IM", F(0, "DeterministicFn")))), "")
    run_all(c, p, "MakeEDP", {}, always(W_(B_("EDP", F(0, "IM"), F(1, "ProbabilisticFn"), a[2]))), "")
    dep = lambda i: ("call", "Dependent_Rate", [F(i, "EDP")])
    run_all(c, p, "MakeCompoundEDP", {}, always(W_(B_("CompoundEDP", F(0, "IM"), dep(1), dep(2), a[3]))), "")
    run_all(c, p, "MakeFragilityFn", {}, always(W_(B_("FragilityFn", each(a[0], "LogNormalDist")))), "")
    run_all(c, p, "MakeSimpleLossFn", {}, always(W_(B_("SimpleLossFn", each(a[0], "LogNormalDist")))), "")
    run_all(c, p, "MakeBiLevelLossFn", {}, always(W_(B_("BiLevelLossFn", each(a[0], "BiLevelLoss")))), "")
    run_all(c, p, "MakeBiLevelLoss", {}, always(W_(B_("BiLevelLoss", *a[:5]))), "")
    run_all(c, p, "MakeCompGroup", {}, always(W_(B_("CompGroup", F(0, "EDP"), F(1, "FragilityFn"), F(2, "LossFn"), F(3, "LossFn"), *a[4:8]))), "")
    run_all(c, p, "AddDistributions", {}, always(W_(("call", "AddDistributions", [each(a[0], "LogNormalDist")]))), "")


def samesize(w, x, y):
    return any(t.op == "eq" and v and {x, y} == set(t.a) for t, v in w.facts)


def atleast(w, xs, n):
    for t, v in w.facts:
        if t.op == "lt" and not v and t.a[0] in xs and t.a[1].op == "lit" and t.a[1].a[0] >= n:
            return True
        if t.op == "le" and not v and t.a[0] in xs and t.a[1].op == "lit" and t.a[1].a[0] >= n - 1:
            return True
        if t.op == "lt" and v and t.a[1] in xs and t.a[0].op == "lit" and t.a[0].a[0] >= n - 1:
            return True
        if t.op == "le" and v and t.a[1] in xs and t.a[0].op == "lit" and t.a[0].a[0] >= n:
            return True
    return False


KEEP = {
    "SLAT::NonLinearHyperbolicLaw": ("v_asy", "IM_asy", "alpha"),
    "SLAT::PowerLawParametricCurve": ("a", "b"),
    "SLAT::CompGroup": ("edp", "frag_fn", "cost_fn", "delay_fn", "count", "cost_adjustment_factor", "delay_adjustment_factor", "name"),
    "SLAT::EDP": ("base_rate", "dependent_rate", "name"),
    "SLAT::CompoundEDP": ("base_rate", "dependent_rate", "second_dependent_rate", "name"),
    "SLAT::IM": ("f", "name"),
    "SLAT::SimpleLossFn": ("loss_functions",),
    "SLAT::BiLevelLossFn": ("distributions",),
    "SLAT::BiLevelLoss": ("count_min", "count_max", "cost_at_min", "cost_at_max", "dispersion"),
}


def constructors(c, m):
    p = m.p
    for cls, fields in KEEP.items():
        have = {f["name"] for f in p.all_fields(cls)}
        for f in p.methods_of.get(cls, ()):
            if f["k"] != "ctor" or "body" not in f or f.get("implicit") or f.get("defaulted") or f.get("copy"):
                continue
            ps = f["params"]
            if not ps or len(ps) > len(fields) or any(cls in x["t"] and "&" in x["t"] for x in ps):
                continue
            guarded(c, K, where(f), sig(f), lambda: constructor(c, p, f, cls, fields, have))


class Keep(Vocab):
    changed = ()
    I = None

    def on(self, w, ev):
        # a list kept whole, and then changed
        if ev.k == "cmod" and self.I is not None and ev.d.get("n") in ("resize", "erase", "clear", "pop_back", "push_back", "insert", "emplace_back"):
            for l in ev.d["cont"]:
                v = w.store.get(l)
                if v and l.op == "f" and all(x.op == "param" for x in v):
                    self.changed = self.changed + ((l, ev.d["n"], ev.at()),)

    def policy(self, e, fn, obj):
        if fn is None or "body" not in fn and not fn.get("inits"):
            return "opaque"
        return "inline" if fn.get("k") == "ctor" and not (fn.get("rec") or "").startswith(("SLAT::Caching", "Caching")) or (fn.get("rec") or "").startswith("SLAT::") and fn["name"] in ("IM", "EDP") else "opaque"


def constructor(c, p, f, cls, fields, have):
    cl = Keep(())
    I = cl.I = Interp(p, cl)
    args = [S(mk("param", "a%d" % i)) for i in range(len(f["params"]))]
    th = mk("obj", cls)
    outs = I.run(f, this=S(th), args=args)
    c.functions |= I.inlined | {f["id"]}
    for i, n in enumerate(fields[:len(args)]):
        if n not in have:
            continue
        vs = set()
        for w, o in outs:
            if o == "return":
                v = I.read1(w, mk("f", th, n))
                vs |= v
        after = [x for x in cl.changed if x[0] == mk("f", th, n)]
        if after:
            c.ob(K, where(f), "%s: %s" % (sig(f), n), False, "the list given is changed afterwards: %s (%s)" % after[0][1:])
            continue
        if not vs:
            continue
        ok = vs == {mk("param", "a%d" % i)}
        sure = all(x.op in ("param",) for x in vs)
        c.ob(K, where(f), "%s: %s" % (sig(f), n), True if ok else False if sure else None, "is %s" % ", ".join(show(x)[:60] for x in vs))


def setters(c, m):
    """setX(x): the part called X is x, or a copy of it, afterwards."""
    p = m.p
    plain = lambda s: s.replace("_", "").lower()
    for f in p.funcs.values():
        n, r = f.get("name", ""), f.get("rec") or ""
        if "body" not in f or f.get("static") or not r.startswith("SLAT::") or f.get("k") != "method" or len(f["params"]) != 1 or not n.lower().startswith("set") or len(n) < 4:
            continue
        fs = [x["name"] for x in p.all_fields(r) if plain(x["name"]) == plain(n[3:])]
        if len(fs) == 1:
            guarded(c, P, where(f), sig(f), lambda: setter(c, p, f, r, fs[0]))


def setter(c, p, f, r, field):
    I = Interp(p, Keep(()))
    th, a = mk("obj", r), mk("param", "a0")
    outs = I.run(f, this=S(th), args=[S(a)])
    c.functions |= I.inlined | {f["id"]}
    bad = und = None
    n = 0
    for w, o in outs:
        if o not in ("return", "end", None):
            continue
        n += 1
        vs = I.read1(w, mk("f", th, field))
        for v in vs:
            got = {v} if v == a else set(I.read1(w, v)) if v.op == "new" else {v}
            got = {x.a[0] if x.op == "deref" else x for x in got}
            if got == {a} or v == a:
                continue
            if all(all(y.op in ("f", "obj") for y in subterms(x)) for x in got):
                bad = "%s is %s afterwards" % (field, show(v)[:80])
            else:
                und = "%s is %s afterwards" % (field, show(v)[:80])
        if not vs:
            und = und or "%s is unknown" % field
    c.ob(P, where(f), sig(f), False if bad else None if und or not n else True, bad or und or "")


def run(thorough=False):
    c = Check("C24", RULE, thorough)
    m = the_model()
    run_check(c, m)
    constructors(c, m)
    setters(c, m)
    c.need(B, 15)
    return c.finish()
