"""C12: every fate's cost is weighted with that fate's own probability."""
from ..formula import *

RULE = ("The value returned by each cost query of a structure is computed by abstract interpretation, path by path, and put "
        "into arithmetic normal form; it must be identical to the specified combination of repair, demolition and rebuild "
        "cost with the probabilities of repair, demolition and collapse (repair = 1 - demolition - collapse), under the "
        "conditions of the path. Integrands are compared the same way.")

VOC = {"CostNC", "pCollapse", "pDemolition", "DerivativeAt", "CostDist_IM", "TotalCost", "calc_AnnualCost"}
ST = "SLAT::Structure"
THIS = obj(ST)
IM_, REB, DEM = fld(THIS, "im"), fld(THIS, "rebuild_cost"), fld(THIS, "demolition_cost")


def pC(x): return call("pCollapse", IM_, x)
def pD(x): return call("pDemolition", IM_, x)
def pR(x): return 1 - (pC(x) + pD(x))
def NC(x): return call("CostNC", THIS, x)


def scaled(d, k): return from_mean_sdln(mean(d) * k, sdln(d))


def sq(d): return mean(d) * mean(d) + sd(d) * sd(d)


def total_mean(x): return mean(NC(x)) * pR(x) + mean(DEM) * pD(x) + mean(REB) * pC(x)


def total_sq(x): return sq(NC(x)) * pR(x) + sq(DEM) * pD(x) + sq(REB) * pC(x)


def total(x):
    m = total_mean(x)
    return from_mean_sd(m, sqrt(total_sq(x) - m * m))


def run(thorough=False):
    c = Check("C12", RULE, thorough)
    m = the_model()
    p = m.p
    x = param("a0")
    nodist = E(NAN)

    def each(name, n, spec, kind="dist", voc=VOC, take=None, inline=()):
        for f in p.fn(ST + "::" + name):
            if "body" not in f or len(f["params"]) != n or f["params"] and "vector" in f["params"][0]["t"]:
                continue
            outs, I = run_fn(p, f, Vocab(set(voc) - {name}, inline=set(inline) | {name}))
            c.functions |= I.inlined | {f["id"]}
            if take:
                outs = take(outs)
            judge(c, "the cost is the specified combination of the fates", where(f), sig(f), outs, kind, spec, VOC)

    def withim(want):
        def g(facts):
            if facts.isnull(IM_):
                return None
            return want
        return g

    each("TotalCost", 1, withim(total(x)))
    each("DeaggregatedCost", 1, withim(pair(scaled(NC(x), 1 - pC(x)), scaled(REB, pC(x)))), "pair")

    def cost(facts):
        cc = facts.get(mk("param", "a1"))
        if cc is None:
            return None
        if not cc:
            return NC(x)
        if facts.isnull(IM_):
            return None
        return call("AddWeightedDistributions", seq(NC(x), REB), seq(1 - pC(x), pC(x)))
    each("Cost", 2, cost)
    fates(c, p, x)
    # the annual cost is the integral over the intensity
    tcost = lambda v: call("TotalCost", THIS, v)
    rate = lambda v: absv(call("DerivativeAt", IM_, v))
    mu = integral(lambda v: mean(tcost(v)) * rate(v))
    m2 = integral(lambda v: sq(tcost(v)) * rate(v))

    def annual(facts):
        if any(t.op == "isuccess" and not v for t, v in facts.f.items()):
            return None
        if facts.positive(mk("size", mk("f", mk("obj", ST), "components"))) is False:
            return None
        return from_mean_sd(mu, sqrt(absv(m2 - mu * mu)))
    for f, outs, I in run_cache(m, ST, "AnnualCost", Vocab(VOC - {"calc_AnnualCost"})):
        c.functions |= I.inlined | {f["id"]}
        judge(c, "the annual cost integrates the total cost over the intensity", where(f), "Structure: calculation of AnnualCost",
              outs, "dist", annual, VOC)
    yearly(c, p)
    t = Table(c, m, VOC - {"CostNC"})
    comps = fld(THIS, "components")
    t.list("the repair cost adds each component's cost once", ST + "::CostNC", size(comps),
           lambda i, f: call("CostDist_IM", fld(idx(comps, i), "first"), x), "dist", pick=argument("AddDistributions", 0))
    c.need("the cost is the specified combination of the fates", 3)
    return c.finish()


def fates(c, p, x):
    for f in p.fn(ST + "::CostsByFate"):
        if "body" not in f or len(f["params"]) != 1 or "vector" in f["params"][0]["t"]:
            continue
        outs, I = run_fn(p, f, Vocab(VOC))
        c.functions |= I.inlined | {f["id"]}
        for fate, want in (("repair", scaled(NC(x), pR(x))), ("demolition", scaled(DEM, pD(x))), ("collapse", scaled(REB, pC(x)))):
            part = []
            for w, o in outs:
                if o != "return":
                    continue
                r = next(iter(w.ret)) if w.ret and len(w.ret) == 1 else None
                if r is None or r.op != "rec":
                    w2 = w.copy()
                    w2.ret = S(mk("f", r, fate)) if r is not None else frozenset()
                else:
                    w2 = w.copy()
                    w2.ret = dict(r.a[0]).get(fate, S(mk("top", "missing")))
                part.append((w2, o))
            judge(c, "the cost is the specified combination of the fates", where(f), "%s, %s" % (sig(f), fate), part, "dist",
                  lambda facts: None if facts.isnull(IM_) else want, VOC)


def yearly(c, p):
    ann = mean(cached(THIS, "AnnualCost"))
    y, r = param("a0"), param("a1")
    want = ((1 - exp(-(r * y))) / r) * ann
    for f in p.fn(ST + "::E_cost"):
        if "body" in f and len(f["params"]) == 2 and "vector" not in f["params"][0]["t"]:
            outs, I = run_fn(p, f, Vocab(VOC))
            c.functions |= I.inlined | {f["id"]}
            judge(c, "the discounted cost is (1 - exp(-rate * years)) / rate times the annual mean", where(f), sig(f), outs, "num",
                  lambda facts: want, VOC)
