"""C23: what a component group says about cost comes from its cost function,
what it says about delay from its delay function."""
from ..formula import *

RULE = ("For each conditional result of a component group (mean, dispersion and standard deviation of cost and of delay, given "
        "the demand or given the intensity) the value is computed by abstract interpretation and put into normal form; "
        "it must be identical to the specified expression: given the demand, the loss function's distribution for the "
        "fragility's damage state probabilities, the count and that loss's own adjustment factor; given the intensity, "
        "the integral over the demand of that distribution's moments times the slope of the demand's exceedance curve.")

VOC = {"CalculateLoss", "pHighest", "P_exceedence", "p_at_most",
       "DamageStates", "pDS_IM_calc"}
D = "given the demand, the distribution is the loss function's own"
M = "given the intensity, the mean integrates the mean given the demand"
V = "given the intensity, the dispersion follows from the second moment"
S_ = "a statistic is read from the distribution of the same loss"
P_ = "the probability of a damage state integrates the state's own distribution"


def run(thorough=False):
    c = Check("C23", RULE, thorough)
    m = the_model()
    t = Table(c, m, VOC)
    x = param("a0")
    g = obj("SLAT::CompGroup")
    F = lambda n: fld(g, n)
    edp, n = F("edp"), F("count")
    G = "SLAT::CompGroup"
    zero = E(mk("lit", 0))
    nodist = E(mk("rec", (("mu_lnX", S(NAN)), ("sigma_lnX", S(NAN))), "spec"))
    exc = lambda v: call("P_exceedence", edp, x, v)
    pdf = lambda v: absv(deriv(exc(v), v))

    for kind in ("cost", "delay"):
        fn = F(kind + "_fn")
        loss = call("CalculateLoss", fn, call("pHighest", F("frag_fn"), x), n, F(kind + "_adjustment_factor"))
        t.cache(D, G, kind + "_EDP_dist", lambda f: nodist if f.isnull(fn) else loss, "dist")
        dist = cached(g, kind + "_EDP_dist", x)
        for q, st in (("E_%s_EDP", mean), ("SD_ln_%s_EDP", sdln), ("SD_%s_EDP", sd), ("mean_ln_%s_EDP", lambda d: call("get_mu_lnX", d))):
            t.fn(S_, G + "::" + q % kind, st(dist), opaque=("operator()",))
        ce, cs = (lambda v: mean(cached(g, kind + "_EDP_dist", v))), (lambda v: sd(cached(g, kind + "_EDP_dist", v)))

        def guarded(want, fail=None):
            def h(facts):
                if facts.positive(n) is False:
                    return zero
                if failed(facts) or facts.get(mk("eq", x.t, mk("lit", 0))) or facts.get(mk("eq", mk("lit", 0), x.t)):
                    return None
                m0 = cached(g, "E_%s_IM" % kind, x).t
                if want is not mw and any(q.op == "eq" and b and any(last(y.a[0]) == "operator()" and y.a[1:] == m0.a[1:] for y in subterms(q) if y.op == "m")
                                          for q, b in facts.f.items()):
                    return zero
                return want
            return h
        mw = integral(lambda v: ce(v) * pdf(v))
        t.cache(M, G, "E_%s_IM" % kind, guarded(mw))

        def dispersion(k, kk):
            mm = cached(g, "E_%s_IM" % kind, x) * k
            s2 = integral(lambda v: (ce(v) * kk * (ce(v) * kk) + cs(v) * cs(v)) * pdf(v)) - mm * mm
            return sqrt(log(1 + s2 / (mm * mm)))
        t.cache(V, G, "SD_ln_%s_IM" % kind, guarded(dispersion(1, 1)),
                known=("SD_ln_delay_IM: means per component, deviations in total", guarded(dispersion(1 / n, 1 / n))) if kind == "delay" else None)

    t.fn("the distribution given the intensity has that mean and dispersion", G + "::CostDist_IM",
         from_mean_sdln(cached(g, "E_cost_IM", x), cached(g, "SD_ln_cost_IM", x)), "dist", opaque=("operator()",))
    for q, w in (("FragFn", "frag_fn"), ("CostFn", "cost_fn"), ("DelayFn", "delay_fn")):
        t.fn(S_, G + "::" + q, F(w))
    ds = fld(F("frag_fn"), "damage_states")
    pds = lambda i, y: integral(lambda v: call("p_at_most", idx(ds, i), v) * absv(deriv(call("P_exceedence", edp, y, v), v)))
    t.list(P_, G + "::pDS_IM", size(ds), lambda i, f: None if failed(f) else pds(i, x), inline=("pDS_IM_calc", "DamageStates"), ok=lambda f: True)
    slope = lambda v: absv(call("DerivativeAt", fld(edp, "base_rate"), v))
    t.cachelist("the rate of a damage state integrates its probability over the hazard", G, "Rate", size(ds),
                lambda i, f: None if failed(f) else [integral(lambda v: pds(i, v) * slope(v)),
                                                     integral(lambda v: call("pDS_IM_calc", g, pair(i, v)) * slope(v))],
                opaque=("pDS_IM_calc", "DerivativeAt"), inline=("DamageStates",))
    c.need(S_, 3)
    return c.finish()
