"""C31: the deterministic functions follow their laws."""
from ..formula import *

RULE = ("The value of each deterministic function is read from the source, path by path, in the state its constructor leaves "
        "(so in terms of the declared parameters), and compared in normal form with its law: the power law, the hyperbolic "
        "law with its asymptote, and interpolation, which keeps the end values outside the table and asks the library's "
        "interpolator in between, given the table the interpolator was built with (its logarithms for the log-log form).")

R = "the value follows the function's law"
T_ = "the interpolator is built from the declared table"
STEP = "the slope is taken over a small interval"
KIND = "the interpolator draws straight lines"
D = "the slope is the derivative of the function's value"


def built(t, cls):
    """Worlds the class's constructor leaves."""
    for f in t.p.funcs.values():
        if f.get("rec") == cls and f["k"] == "ctor" and "body" in f and not f.get("implicit") and not f.get("defaulted") \
                and not any(cls in x["t"] for x in f["params"]):
            cl = Spy()
            I = Interp(t.p, cl)
            try:
                outs = I.run(f, this=S(mk("obj", cls)), args=[S(mk("param", "p%d" % i)) for i in range(len(f["params"]))])
            except TooBig as ex:
                t.c.ob(R, where(f), sig(f), None, str(ex))
                continue
            t.c.functions |= I.inlined | {f["id"]}
            yield f, I, cl, [w for w, o in outs if o == "return"][:4]


class Spy(Vocab):
    """Notes what the interpolator is built from."""

    def __init__(self):
        super().__init__(())
        self.inits = []

    def on(self, w, ev):
        if ev.k == "ext" and ev.d.get("n") == "gsl_spline_init":
            self.inits.append((w.copy(), ev.node, ev.d["vals"], ev.d["val"]))


def spline(v):
    """Rewrites the library's interpolation of x in the table t to spline(t, x)."""
    def go(t):
        if isinstance(t, frozenset):
            return frozenset(go(x) for x in t)
        if isinstance(t, tuple):
            return tuple(go(x) for x in t)
        if not isinstance(t, T):
            return t
        c = t
        if t.op == "out" and t.a[0] == "gsl_spline_eval_e":
            c = t.a[2]
        if c.op == "ext" and last(c.a[0]) in ("gsl_spline_eval_e", "gsl_spline_eval"):
            a = list(c.a[1]) if isinstance(c.a[1], tuple) else list(c.a[1:])
            return mk("ext", "spline", *[go(x) for x in a[:2]])
        return mk(t.op, *(go(x) for x in t.a))
    return go(v)


def run(thorough=False):
    c = Check("C31", RULE, thorough)
    m = the_model()
    t = Table(c, m, {"Evaluate"})
    x = param("a0")
    P = [param("p%d" % i) for i in range(4)]
    zero = E(mk("lit", 0))
    for n, spec in (("NonLinearHyperbolicLaw", lambda f: zero if f.lt(x, P[1]) is False else P[0] * exp(P[2] / log(x / P[1]))),
                    ("PowerLawParametricCurve", lambda f: P[0] * ext("pow", x, P[1]))):
        for f, I, cl, ws in built(t, "SLAT::" + n):
            for w in ws:
                t.fn(R, "SLAT::" + n + "::Evaluate", spec, world=w)
    for n, tr in (("LinearInterpolatedFn", lambda e: e), ("LogLogInterpolatedFn", log)):
        for f, I, cl, ws in built(t, "SLAT::" + n):
            table(c, f, I, cl, tr, P)
            kinds = {y for w in ws for v in w.store.get(fld(obj("SLAT::" + n), "interp").t) or () for y in subterms(v)
                     if y.op == "g" and last(y.a[0]).startswith("gsl_interp_")}
            if kinds:
                c.ob(KIND, where(f), sig(f), all(last(y.a[0]) == "gsl_interp_linear" for y in kinds), "of kind " + ", ".join(sorted(last(y.a[0]) for y in kinds)))
            for w in ws:
                interpolated(c, t, n, w, tr, x, P)
    d = obj("SLAT::DeterministicFn")
    t.fn(R, "SLAT::DeterministicFn::ValueAt", call("Evaluate", d, x))
    t2 = Table(c, m, {"ValueAt", "Evaluate"})
    t2.fn(D, "SLAT::DeterministicFn::DerivativeAt", lambda f: [deriv(call("ValueAt", d, x), x), deriv(call("Evaluate", d, x), x)])
    for f in t2.fns("SLAT::DeterministicFn::DerivativeAt"):
        guarded(c, STEP, where(f), sig(f), lambda: step(c, t2, f))
    c.need(R, 3)
    return c.finish()


class Steps(Vocab):
    def __init__(self, names):
        super().__init__(names)
        self.steps = []

    def on(self, w, ev):
        if ev.k == "ext" and (ev.d.get("n") or "").startswith("gsl_deriv_") and len(ev.d["vals"]) > 2:
            self.steps.append((ev.d["vals"][2], ev.at()))


def step(c, t, f):
    """The numerical derivative is taken over a small interval."""
    cl = Steps({"ValueAt", "Evaluate"})
    I = Interp(t.p, cl)
    I.run(f, this=S(mk("obj", "SLAT::DeterministicFn")), args=[S(mk("param", "a0"))])
    bad = und = None
    for vs, at in cl.steps:
        for v in vs:
            if v.op == "lit" and isinstance(v.a[0], (int, float)):
                if not 0 < v.a[0] <= 1e-3:
                    bad = "an interval of %s (%s)" % (v.a[0], at)
            elif v.op == "param":
                bad = "an interval as wide as the argument (%s)" % at
            else:
                und = "an interval of %s (%s)" % (show(v)[:60], at)
    if cl.steps:
        c.ob(STEP, where(f), sig(f), False if bad else None if und else True, bad or und or "")


def interpolated(c, t, n, w0, tr, x, P):
    q = "SLAT::%s::Evaluate" % n
    lo, hi = idx(P[0], 0), idx(P[0], P[2] - 1)
    ylo, yhi = idx(P[1], 0), idx(P[1], P[2] - 1)
    o = fld(obj("SLAT::" + n), "interp")
    it = w0.store.get(o.t)
    table_ = E(one(it)) if it and len(it) == 1 else o
    mid = ext("spline", table_, tr(x))
    mid = exp(mid) if tr is log else mid
    for f in t.fns(q):
        outs, I = run_fn(t.p, f, t.client("Evaluate"), world=w0)
        t.c.functions |= I.inlined | {f["id"]}
        new = []
        und = None
        for w, k in outs:
            if k == "return" and w.ret:
                w = w.copy()
                w.ret = spline(w.ret)
                F = Facts(w.facts)
                if not (below(F, x, lo) is not None and below(F, hi, x) is not None):
                    # a value for which it isn't known whether the argument is in the table
                    if any(y.op == "ext" and last(y.a[0]) in ("max", "min", "fmax", "fmin", "clamp") for r in w.ret for y in subterms(r)):
                        und = "clamped in another way"
                        continue
            new.append((w, k))
        if und:
            c.ob(R, where(f), sig(f), None, und)
            continue

        def spec(F):
            b, a = below(F, x, lo), below(F, hi, x)
            if b:
                return ylo
            if a:
                return yhi
            return mid if b is False and a is False else ext("spline", "outside the table")
        judge(c, R, where(f), sig(f), new, "num", spec, {"spline"}, I=I)


def below(F, a, b):
    """a < b on this path?  At equality both answers are the same value."""
    v = F.lt(a, b)
    if v is not None:
        return v
    v = F.lt(b, a)
    return None if v is None else not v


def table(c, f, I, cl, tr, P):
    got = [g for g in cl.inits if g]
    if not got:
        c.ob(T_, where(f), sig(f), None, "no call of gsl_spline_init found")
        return
    w, node, vals, val = got[-1]
    a = list(val.a[1]) if isinstance(val.a[1], tuple) else list(val.a[1:])
    if len(a) != 4:
        c.ob(T_, where(f), sig(f), None, show(val))
        return
    for k, what, src in ((1, "abscissae", P[0]), (2, "ordinates", P[1])):
        v = one(a[k])
        if v.op == "param":
            ok = tr(src).t == v
            c.ob(T_, where(f), "%s: %s" % (sig(f), what), ok, "built from %s" % show(v))
            continue
        # a local array filled by a loop
        cellsat = [(key, x) for key, x in w.store.items() if key.op == "idx" and key.a[0] == v]
        phs = [(key, x) for key, x in cellsat if key.a[1].op == "phi"]
        if len(phs) != 1 or len(cellsat) != 1:
            c.ob(T_, where(f), "%s: %s" % (sig(f), what), None, "built from %s" % show(v))
            continue
        key, x = phs[0]
        un = lambda y: y.op in ("undef", "dflt") or y.op == "idx" and root(y).op == "undef"
        backs = cells(I, key.a[1], x) or [(frozenset(y for y in x if not un(y)), w.facts)]
        if any(un(y) for z, _ in backs for y in z or ()):
            c.ob(T_, where(f), "%s: %s" % (sig(f), what), None, "an element may be left out")
            continue
        cov, det = coverage.counter(I, key.a[1], {P[2].t}, w.facts)
        if cov is False:
            c.ob(T_, where(f), "%s: %s" % (sig(f), what), False, det)
            continue
        outs = []
        for z, fs in backs:
            w2 = w.copy()
            w2.ret, w2.facts = frozenset(subst(y, {key.a[1]: IX}) for y in z), frozenset((subst(q, {key.a[1]: IX}), b) for q, b in fs)
            outs.append((w2, "return"))
        sub = Sub()
        judge(sub, T_, where(f), "", outs, "num", lambda F: tr(idx(src, E(IX))), {"spline"}, I=I)
        c.ob(T_, where(f), "%s: %s" % (sig(f), what), sub.ok if cov is True or sub.ok is False else None, sub.detail or det)
    c.ob(T_, where(f), "%s: number of points" % sig(f), True if one(a[3]) == P[2].t else False if one(a[3]).op in ("lit", "bin") else None, "built for %s points" % show(one(a[3])))
