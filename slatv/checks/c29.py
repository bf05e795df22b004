"""C29: distributions combine by adding means and variances."""
from ..formula import *

RULE = ("The mean and the standard deviation of the distribution returned by a combination are read from the source by "
        "abstract interpretation; a loop which counts over the list and adds a term to an accumulator is recognised as "
        "the sum of that term. In normal form they must equal: for independent distributions the sum of the means and "
        "the square root of the sum of the variances; for weighted alternatives the weighted mean and the second "
        "moment's excess over its square; for a scaled distribution the scaled mean and the same dispersion.")

R = "a combination has the specified mean and standard deviation"


def run(thorough=False):
    c = Check("C29", RULE, thorough)
    m = the_model()
    t = Table(c, m, {"CostDist_IM"})
    L = param("a0")
    D = "SLAT::LogNormalDist::"
    any_ = lambda f: True
    mn = total(L, lambda d: mean(d))
    t.fn(R, D + "AddDistributions", from_mean_sd(mn, sqrt(total(L, lambda d: sd(d) * sd(d)))), "dist", ok=any_)
    W = param("a1")
    el = lambda i: idx(L, i)
    wm = totals(L, lambda i: mean(el(i)) * idx(W, i))
    w2 = totals(L, lambda i: (mean(el(i)) * mean(el(i)) + sd(el(i)) * sd(el(i))) * idx(W, i))
    t.fn(R, D + "AddWeightedDistributions", from_mean_sd(wm, sqrt(absv(w2 - wm * wm))), "dist", ok=any_)
    this = obj("SLAT::LogNormalDist")
    for n in ("ScaleDistributionByProbability", "ScaleDistributionByNumComponents", "ApplyAdjustmentFactor"):
        t.fn(R, D + n, from_mean_sdln(mean(this) * L, sdln(this)), "dist")
    c.need(R, 3)
    return c.finish()
