"""C28: losses follow from the damage state probabilities, the count and the adjustment factor."""
from ..formula import *
from ..order import split

RULE = ("The distribution each loss function returns is read from the source path by path and compared in normal form: the "
        "weighted combination of its damage states' distributions (each taken for the number of components, where it depends "
        "on it), scaled by that number; the two-level cost is the cost at the lower count up to it, the cost at the "
        "upper count from it on, and the straight line in between, at the declared dispersion; the adjustment factor scales "
        "the unadjusted loss.")

R = "a loss is the weighted combination of its damage states, scaled"
B = "the cost between the two counts is the straight line"
A = "the adjustment factor scales the unadjusted loss"


def run(thorough=False):
    c = Check("C28", RULE, thorough)
    m = the_model()
    t = Table(c, m, {"CalculateUnadjustedLoss", "LossFunctionsForCount"})
    any_ = lambda f: True
    P, n = param("a0"), param("a1")
    L = obj("SLAT::LossFn")
    t.fn(A, "SLAT::LossFn::CalculateLoss", scale(call("CalculateUnadjustedLoss", L, P, n), param("a2")), "dist", ok=any_)
    s = obj("SLAT::SimpleLossFn")
    t.fn(R, "SLAT::SimpleLossFn::CalculateUnadjustedLoss", scale(call("AddWeightedDistributions", fld(s, "loss_functions"), P), n), "dist", ok=any_)
    b = obj("SLAT::BiLevelLossFn")
    ds = fld(b, "distributions")
    # the list of distributions for this count, then their combination
    q = "SLAT::BiLevelLossFn::CalculateUnadjustedLoss"
    t.list(R, q, [size(ds), size(P)], lambda i, f: cached(idx(ds, i), "LossFunctionsForCount", n), "dist", ok=any_,
           pick=lambda o: argument("AddWeightedDistributions", 0)(unscale(o)), what="the distributions combined by BiLevelLossFn")
    for f in t.fns(q, any_):
        outs, I = run_fn(m.p, f, t.client(f["name"]))
        c.functions |= I.inlined | {f["id"]}
        for w, o in outs:
            for r in (w.ret or ()):
                if o == "return":
                    d = [y for y in subterms(r) if y.op == "m" and last(y.a[0]) == "AddWeightedDistributions"]
                    if len(d) != 1:
                        c.ob(R, where(f), "BiLevelLossFn's loss", None, show(r)[:200])
                        continue
                    w2 = w.copy()
                    w2.ret = S(r)
                    judge(c, R, where(f), "BiLevelLossFn's loss", [(w2, o)], "dist",
                          lambda f: scale(call("AddWeightedDistributions", E(one(d[0].a[1])), P), n), {"AddWeightedDistributions"}, I=I)
    l = obj("SLAT::BiLevelLoss")
    k = param("a0")
    lo, hi, clo, chi, dis = (fld(l, x) for x in ("count_min", "count_max", "cost_at_min", "cost_at_max", "dispersion"))

    between = from_mean_sdln(clo + (k - lo) / (hi - lo) * (chi - clo), dis)
    low, high = from_mean_sdln(clo, dis), from_mean_sdln(chi, dis)
    level = lambda f: split(f, [([(k, "<", lo)], low), ([(k, "==", lo)], [low, between]), ([(lo, "<", k), (k, "<", hi)], between),
                                ([(k, "==", hi)], [high, between]), ([(hi, "<", k)], high)], ints=True, given=[(lo, "<", hi)])
    t.cache(B, "SLAT::BiLevelLoss", "LossFunctionsForCount", level, "dist")
    return c.finish()


def scale(d, k):
    return from_mean_sdln(mean(d) * k, sdln(d))


def unscale(outs):
    out = []
    for w, o in outs:
        if o == "return" and w.ret and len(w.ret) == 1:
            w = w.copy()
            r = one(w.ret)
            d = [y for y in subterms(r) if y.op == "m" and last(y.a[0]) == "AddWeightedDistributions"]
            if len(d) == 1:
                w.ret = S(d[0])
        out.append((w, o))
    return out
