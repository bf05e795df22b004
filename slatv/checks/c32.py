"""C32: rates integrate the right probability over the hazard."""
from ..formula import *

RULE = ("Every rate of exceedance, of collapse, of demolition, of damage states and every annual cost is an integral over the "
        "intensity; its integrand, read from the source by abstract interpretation (through helpers, closures and the "
        "numerical derivative) and put into normal form, must be identical to the specified conditional quantity times "
        "the magnitude of the hazard curve's slope. The probabilities of repair, demolition and collapse are compared "
        "with their definitions in the same way.")

VOC = {"lambda", "pCollapse", "pDemolition", "DerivativeAt", "p_at_most", "p_at_least", "P_exceedence", "ValueAt",
       "pDS_IM_calc"}
R = "the probability of each fate is as specified"
I_ = "the integrand is the conditional quantity times the slope of the hazard curve"


def run(thorough=False):
    c = Check("C32", RULE, thorough)
    m = the_model()
    t = Table(c, m, VOC)
    x = param("a0")
    im = obj("SLAT::IM")
    C, D = fld(im, "collapse"), fld(im, "demolition")
    pC, pD = call("pCollapse", im, x), call("pDemolition", im, x)
    t.fn(R, "SLAT::IM::pCollapse", lambda f: E(mk("lit", 0)) if f.isnull(C) else call("p_at_most", C, x))
    t.fn(R, "SLAT::IM::pDemolition", lambda f: E(mk("lit", 0)) if f.isnull(D) else call("p_at_most", D, x) - pC)
    t.fn(R, "SLAT::IM::pRepair", 1 - pC - pD)
    t.fn(R, "SLAT::IM::lambda", call("ValueAt", fld(im, "f"), x))
    slope = lambda o, v: absv(call("DerivativeAt", o, v))

    def rate(fl, p):
        def g(facts):
            if facts.isnull(fl):
                return E(mk("lit", 0))
            return None if failed(facts) else integral(lambda v: call(p, im, v) * slope(im, v))
        return g
    t.cache(I_, "SLAT::IM", "CollapseRate", rate(C, "pCollapse"))
    t.cache(I_, "SLAT::IM", "DemolitionRate", rate(D, "pDemolition"))
    t.fn("the slope is the derivative of the hazard curve", "SLAT::IM::DerivativeAt", deriv(call("lambda", im, x), x))
    e = obj("SLAT::EDP")
    b = fld(e, "base_rate")
    rep = lambda v: 1 - call("pCollapse", b, v) - call("pDemolition", b, v)
    exc = lambda v: call("P_exceedence", e, v, x)
    t.cache(I_, "SLAT::EDP", "lambda", unless_failed(integral(lambda v: (exc(v) * rep(v) + 1 - rep(v)) * slope(b, v))))
    t.fn("the slope is the derivative of the hazard curve", "SLAT::EDP::DerivativeAt",
         deriv(cached(e, "lambda", x), x), opaque=("operator()",))
    g = obj("SLAT::CompGroup")
    bg = fld(fld(g, "edp"), "base_rate")
    n = fld(g, "count")

    def counted(want):
        def h(facts):
            if facts.positive(n) is False:
                return E(mk("lit", 0))
            return None if failed(facts) else want
        return h
    ec, sc = lambda v: cached(g, "E_cost_IM", v), lambda v: cached(g, "SD_ln_cost_IM", v)
    t.cache(I_, "SLAT::CompGroup", "E_annual_cost", counted(integral(lambda v: ec(v) * slope(bg, v))))
    t.cache(I_, "SLAT::CompGroup", "lambda_cost", counted(integral(
        lambda v: call("p_at_least", from_mean_sdln(ec(v), sc(v)), x) * slope(bg, v))))
    c.need(I_, 3)
    return c.finish()
