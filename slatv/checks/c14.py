"""C14: a probabilistic function reports the distribution it was declared with."""
from ..formula import *
from ..order import split

RULE = ("For each way of declaring a lognormal function (mean, median or mean of the logarithm; standard deviation or that of "
        "the logarithm) the constructor is interpreted abstractly and then every statistic in the state it leaves, "
        "following the closures it stored; the value in normal form must be the one the declared pair implies. Each "
        "statistic of a demand must be the same statistic of the function behind it; a compound demand's that of the "
        "function with the larger mean.")

R = "a statistic of a lognormal function follows from the pair it was declared with"
F_ = "a demand's statistic is its function's"
K = "a compound demand reports the function with the larger mean"
L = "SLAT::LogNormalFn"
STATS = ("Mean", "MeanLn", "Median", "SD_ln", "SD")


def run(thorough=False):
    c = Check("C14", RULE, thorough)
    m = the_model()
    p = m.p
    voc = {"ValueAt", "p_at_least", "x_at_p"} | set(STATS) | {"P_exceedence", "X_at_exceedence"}
    t = Table(c, m, voc)
    x, y = param("a0"), param("a1")
    this = obj(L)
    declared(c, p, t, x, y)
    e = obj("SLAT::EDP")
    dep = fld(e, "dependent_rate")
    for n in STATS:
        t.fn(F_, "SLAT::EDP::" + n, call(n, dep, x))
    for n in ("P_exceedence", "X_at_exceedence"):
        t.fn(F_, "SLAT::EDP::" + n, call(n, dep, x, y))
    k = obj("SLAT::CompoundEDP")
    d1, d2 = fld(k, "dependent_rate"), fld(k, "second_dependent_rate")
    m1, m2 = call("Mean", d1, x), call("Mean", d2, x)

    for n in STATS + ("P_exceedence", "X_at_exceedence"):
        a = (x, y) if n in ("P_exceedence", "X_at_exceedence") else (x,)

        def spec(f, n=n, a=a):
            r1, r2 = call(n, d1, *a), call(n, d2, *a)
            return split(f, [([(m2, "<", m1)], r1), ([(m1, "<", m2)], r2), ([(m1, "==", m2)], [r1, r2])])
        t.fn(K, "SLAT::CompoundEDP::" + n, spec)
    c.need(F_, 3)
    return c.finish()


def declared(c, p, t, x, y):
    mt, st = p.enums.get(L + "::M_TYPE"), p.enums.get(L + "::S_TYPE")
    ctors = [f for f in p.funcs.values() if f.get("rec") == L and f["k"] == "ctor" and "body" in f and not f.get("implicit") and len(f["params"]) == 4]
    if not mt or not st or len(ctors) != 1:
        c.broken("LogNormalFn's constructor or enumerators not found")
        return
    f = ctors[0]
    order = [("mu" if "M_TYPE" in q["t"] else "sg" if "S_TYPE" in q["t"] else None) for q in f["params"]]
    if order.index("mu") == -1 or order.index("sg") == -1:
        return
    me, se = ({k["name"]: k["v"] for k in e["consts"]} for e in (mt, st))
    ps = [k for k, o in enumerate(order) if o is None]
    fm, fs = param("a%d" % ps[0]), param("a%d" % ps[1])
    mu, sg = call("ValueAt", fm, x), call("ValueAt", fs, x)
    for mn in ("MEAN_X", "MEAN_LN_X", "MEDIAN_X"):
        for sn in ("SIGMA_X", "SIGMA_LN_X"):
            if mn not in me or sn not in se:
                continue
            args = [S(mk("lit", me[mn])) if o == "mu" else S(mk("lit", se[sn])) if o == "sg" else S(mk("param", "a%d" % k)) for k, o in enumerate(order)]
            cl = t.client("LogNormalFn")
            I = Interp(p, cl)
            outs = I.run(f, this=S(mk("obj", L)), args=args)
            worlds = [w for w, o in outs if o == "return"]
            if not worlds:
                c.ob(R, where(f), "%s with %s can be declared" % (mn, sn), False, "the constructor never finishes")
                continue
            # the two parameters of the distribution
            if sn == "SIGMA_LN_X":
                s_ = sg
            elif mn == "MEAN_X":
                s_ = sqrt(log(1 + sg * sg / (mu * mu)))
            else:
                md = exp(mu) if mn == "MEAN_LN_X" else mu
                s_ = sqrt(log((1 + sqrt(1 + 4 * (sg * sg) / (md * md))) / 2))
            m_ = mu if mn == "MEAN_LN_X" else log(mu) if mn == "MEDIAN_X" else log(mu) - s_ * s_ / 2
            for w in worlds[:4]:
                mean_ = exp(m_ + s_ * s_ / 2)
                for n, want in (("Mean", mean_), ("MeanLn", m_), ("Median", exp(m_)), ("SD_ln", s_), ("SD", mean_ * sqrt(exp(s_ * s_) - 1))):
                    t.fn(R, L + "::" + n, want, world=w, what="%s with %s: %s" % (mn, sn, n))
                d_ = from_mu_sdln(m_, s_)
                t.fn(R, L + "::P_exceedence", call("p_at_least", d_, y), world=w, what="%s with %s: P_exceedence" % (mn, sn))
