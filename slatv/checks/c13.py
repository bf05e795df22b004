"""C13: the lognormal distribution's conversions agree with one another."""
from ..formula import *

RULE = ("Each factory and accessor of the lognormal distribution is interpreted abstractly, path by path, down to the two "
        "parameters it stores (mean and standard deviation of the logarithm); the values in normal form must equal the "
        "textbook conversions, so that any statistic read back is a function of those two parameters only; probabilities "
        "and quantiles call the library's upper tail, lower tail and inverse with (x, mu, sigma) in that order.")

R = "a distribution stores the parameters the conversion specifies"
G = "a statistic is the specified function of the parameters"
P = "a probability is the library's for these parameters"
C_ = "a copy is the same distribution"
D = "SLAT::LogNormalDist"
NO = ("SLAT::Context", "SLAT::TempContext")


def run(thorough=False):
    FIELDS.clear()      # here the stored parameters are what is specified
    c = Check("C13", RULE, thorough)
    m = the_model()
    t = Table(c, m, ())
    a, b = param("a0"), param("a1")
    this = obj(D)
    mu, sg = fld(this, "mu_lnX"), fld(this, "sigma_lnX")
    any_ = lambda f: True

    def pair_of(name, smu, ssg):
        for f_, want in (("mu_lnX", smu), ("sigma_lnX", ssg)):
            for f in t.fns(D + "::" + name):
                t.fn(R, D + "::" + name, want, recs=NO, pick=member(f_), what="%s, %s" % (sig(f), f_), nan=True)
    pair_of("LogNormalDist_from_mean_X_and_sigma_lnX", log(a) - b * b / 2, b)
    pair_of("LogNormalDist_from_median_X_and_sigma_lnX", log(a), b)
    pair_of("LogNormalDist_from_mu_lnX_and_sigma_lnX", a, b)
    s = sqrt(log(1 + b * b / (a * a)))

    def atzero(facts):
        return any(q.op == "eq" and v and a.t in q.a for q, v in facts.f.items())
    z = E(mk("lit", 0))
    pair_of("LogNormalDist_from_mean_X_and_sigma_X", lambda f: log(a) if atzero(f) else log(a) - s * s / 2, lambda f: z if atzero(f) else s)
    minf = lambda f: any(q.op == "eq" and v and mu.t in q.a for q, v in f.f.items())
    mn = exp(mu + sg * sg / 2)
    for n, w in (("get_mu_lnX", mu), ("get_sigma_lnX", sg), ("get_median_X", exp(mu)),
                 ("get_mean_X", lambda f: z if minf(f) else mn), ("get_sigma_X", lambda f: z if minf(f) else mn * sqrt(exp(sg * sg) - 1))):
        t.fn(G, D + "::" + n, w, recs=NO)
    lib = lambda n: ext(n, a, mu, sg)

    def prob(n, munan):
        def g(f):
            im, is_ = isnan(f, mu), isnan(f, sg)
            if im and is_:
                return E(NAN)
            if im:
                return munan
            if f.lt(lib(n), 0):
                return z
            return [lib(n), maxv(z, lib(n))]
        return g
    t.fn(P, D + "::p_at_least", prob("gsl_cdf_lognormal_Q", z), recs=NO, nan=True)
    t.fn(P, D + "::p_at_most", prob("gsl_cdf_lognormal_P", None), recs=NO, nan=True)
    t.fn(P, D + "::x_at_p", prob("gsl_cdf_lognormal_Pinv", None), recs=NO, nan=True)
    for f in t.p.methods_of.get(D, ()):
        if "body" in f and not f.get("implicit") and not f.get("defaulted") and len(f["params"]) == 1 and D in "SLAT::" + f["params"][0]["t"].replace("SLAT::", "").replace("const ", "") \
                and (f["k"] == "ctor" or f["name"] == "operator="):
            guarded(c, C_, where(f), sig(f), lambda: copied(c, t.p, f))
    c.need(G, 3)
    return c.finish()


def copied(c, p, f):
    th, a = mk("obj", D), mk("param", "a0")
    I = Interp(p, Vocab(()))
    outs = I.run(f, this=S(th), args=[S(a)])
    c.functions |= I.inlined | {f["id"]}
    bad = und = None
    for w, o in outs:
        if o == "throw" or any(t.op == "eq" and v and th in [y for x in t.a for y in subterms(x)] and a in [y for x in t.a for y in subterms(x)] for t, v in w.facts):
            continue
        for n in ("mu_lnX", "sigma_lnX"):
            vs = I.read1(w, mk("f", th, n))
            want = mk("f", a, n)
            for v in vs:
                if v == want:
                    continue
                if v.op in ("lit", "nan") or v.op == "f" and v.a[0] == a or v == mk("f", th, n) or v == NAN:
                    bad = "%s of the copy is %s" % (n, show(v)[:60])
                else:
                    und = "%s of the copy is %s" % (n, show(v)[:60])
    c.ob(C_, where(f), sig(f), False if bad else None if und or not outs else True, bad or und or "")


def isnan(f, x):
    for q, v in f.f.items():
        if (q.op == "isnan" or q.op == "ext" and last(q.a[0]) == "isnan") and x.t in subterms(q):
            return v
    return None
