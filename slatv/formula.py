"""Comparison of what a function computes with what it is specified to compute.

The function is interpreted abstractly, path by path; calls of the vocabulary
(public queries of the library) stay uninterpreted, everything else is followed.
The value returned on each path is put into normal form (poly.Norm) together
with the specified value, under the conditions of that path."""
from .checks.common import *
from . import poly, coverage
from .poly import RF, Undecided
from fractions import Fraction as Q

DIST = "SLAT::LogNormalDist"
STAT = {"get_mean_X", "get_sigma_lnX", "get_sigma_X", "get_median_X", "get_mu_lnX"}
FROM = {"LogNormalDist_from_mean_X_and_sigma_lnX": ("mean", "sg"), "LogNormalDist_from_mean_X_and_sigma_X": ("mean", "sd"),
        "LogNormalDist_from_median_X_and_sigma_lnX": ("median", "sg"), "LogNormalDist_from_mu_lnX_and_sigma_lnX": ("mu", "sg")}
SCALE = {"ScaleDistributionByProbability", "ScaleDistributionByNumComponents", "ApplyAdjustmentFactor"}
MATH = {"exp", "log", "fabs", "abs", "sqrt", "pow", "max", "min", "expm1", "log1p", "sin", "cos", "floor", "ceil", "fmax", "fmin",
        "round", "log10", "log2", "exp2", "cbrt", "hypot"}


# ---- writing specifications
class E:
    __slots__ = ("t",)

    def __init__(self, t):
        self.t = t

    def _b(op, swap=False):
        def g(self, o):
            a, b = self.t, term(o)
            return E(mk("bin", op, b, a) if swap else mk("bin", op, a, b))
        return g
    __add__, __radd__, __sub__, __rsub__ = _b("+"), _b("+", True), _b("-"), _b("-", True)
    __mul__, __rmul__, __truediv__, __rtruediv__ = _b("*"), _b("*", True), _b("/"), _b("/", True)

    def __neg__(self):
        return E(mk("un", "-", self.t))


def term(x):
    if isinstance(x, E):
        return x.t
    if isinstance(x, (int, float)):
        return mk("lit", x)
    return x


def ext(n, *a):
    return E(mk("ext", n, tuple(S(term(x)) for x in a)))


def sqrt(x): return ext("sqrt", x)
def log(x): return ext("log", x)
def exp(x): return ext("exp", x)
def absv(x): return ext("fabs", x)
def maxv(x, y): return ext("max", x, y)
def call(n, *a): return E(mk("m", n, *[S(term(x)) for x in a]))
def fld(o, n): return E(mk("f", term(o), n))
def param(n): return E(mk("param", n))
def obj(c): return E(mk("obj", c))
def idx(o, k): return E(mk("idx", term(o), term(k)))
def cached(o, field, *a): return call("::operator()", fld(o, field), *a)
def integral(f): return E(mk("integral", "spec", S(term(f(E(mk("ivar", "spec")))))))
def deriv(v, x): return E(mk("deriv", S(term(v)), S(term(x))))
def seq(*xs): return E(mk("rec", tuple((mk("lit", i), S(term(x))) for i, x in enumerate(xs)), "spec"))
def mean(d): return call("get_mean_X", d)
def sd(d): return call("get_sigma_X", d)
def sdln(d): return call("get_sigma_lnX", d)
def from_mean_sdln(m, s): return call("LogNormalDist_from_mean_X_and_sigma_lnX", m, s)
def from_mean_sd(m, s): return call("LogNormalDist_from_mean_X_and_sigma_X", m, s)
def from_mu_sdln(m, s): return call("LogNormalDist_from_mu_lnX_and_sigma_lnX", m, s)


def last(q):
    return str(q).split("::")[-1]


def one(v):
    if isinstance(v, frozenset):
        if len(v) != 1:
            raise Undecided("several values")
        return next(iter(v))
    return v


def items(t):
    """Elements of a list with known contents."""
    t = one(t)
    if t.op == "rec":
        out = []
        size = t.a[1].a[0] if len(t.a) > 1 and isinstance(t.a[1], T) and t.a[1].op == "sized" else ()
        size = next(iter(size)) if len(size) == 1 else None
        for k, v in t.a[0]:
            if k in ("*", STAR) and size is not None and size.op == "lit" and size.a[0] == sum(1 for q, _ in t.a[0] if q not in ("*", STAR)):
                continue        # each element has been given a value
            if not (isinstance(k, T) and k.op == "lit" and isinstance(k.a[0], int) or isinstance(k, int)):
                return None
            out.append((k.a[0] if isinstance(k, T) else k, v))
        out.sort(key=lambda x: x[0])
        if [k for k, _ in out] == list(range(len(out))):
            return [v for _, v in out]
    return None


def one_or_none(t):
    return (next(iter(t)) if len(t) == 1 else None) if isinstance(t, frozenset) else t


class Vocab(Client):
    merge = "paths"
    max_worlds = 600
    lists = True

    def __init__(self, opaque=(), inline=(), opaque_recs=(DIST, "SLAT::Context", "SLAT::TempContext"), own=None):
        self.own = own
        self.names, self.inl, self.recs = set(opaque), set(inline), set(opaque_recs)

    def policy(self, e, fn, obj):
        if fn is None or "body" not in fn:
            return "opaque"
        rec = fn.get("rec") or ""
        if fn["name"] in self.inl:
            return "inline"
        if fn.get("k") == "ctor" and rec == DIST:
            return "inline"
        if rec == DIST and fn["name"] not in LIB and DIST in self.recs and fn.get("k") not in ("ctor", "dtor") and not fn["name"].startswith("operator"):
            return "inline"
        if rec in self.recs or rec.startswith("SLAT::Replaceable") or rec.startswith("Caching::") or rec.startswith("SLAT::Caching::"):
            return "opaque"
        if fn["name"] in self.names:
            # an overload of the function itself is part of it
            if fn["name"] == self.own and obj and all(one_or_none(x) is not None and one_or_none(x).op == "obj" for x in obj):
                return "inline"
            return "opaque"
        return "inline"


_plain = {}


def plain(t):
    """Calls by their unqualified name."""
    if isinstance(t, frozenset):
        return frozenset(plain(x) for x in t)
    if isinstance(t, tuple):
        return tuple(plain(x) for x in t)
    if not isinstance(t, T):
        return t
    r = _plain.get(t)
    if r is None:
        a = tuple(plain(x) for x in t.a)
        if t.op == "m":
            a = (last(a[0]),) + a[1:]
        r = _plain[t] = mk(t.op, *a)
    return r


class Facts:
    def __init__(self, facts):
        self.f = {plain(t): v for t, v in dict(facts).items()}

    def isnull(self, x):
        return self.f.get(mk("isnull", plain(term(x))))

    def get(self, t):
        return self.f.get(plain(t))

    def lt(self, a, b):
        a, b = plain(term(a)), plain(term(b))
        v = self.f.get(mk("lt", a, b))
        if v is None:
            w = self.f.get(mk("le", b, a))
            v = None if w is None else not w
        return v

    def positive(self, x):
        """whether the whole number x (a count, or the size of a container) is at least one, as far as is known"""
        x = plain(term(x))
        size = x.op in ("size", "count")
        for t, b in self.f.items():
            if t.op in ("lt", "le", "eq") and len(t.a) == 2 and x in t.a:
                o = t.a[1] if t.a[0] is x else t.a[0]
                if o.op != "lit" or isinstance(o.a[0], bool) or not isinstance(o.a[0], (int, float)):
                    continue
                n = o.a[0]
                if t.op == "eq":
                    if b and n <= 0:
                        return False
                    if b or size and n == 0:
                        return True
                elif t.a[1] is x:       # n < x, n <= x
                    m = 0 if t.op == "lt" else 1
                    if b and n >= m or not b and n <= m:
                        return b
                else:                   # x < n, x <= n
                    m = 1 if t.op == "lt" else 0
                    if b and n <= m or not b and n >= m:
                        return not b
            elif size and t.op == "empty" and t.a[0] is x.a[0]:
                return not b
            elif t is x:
                if not b or size:
                    return b
        return None


# what a distribution stores
FIELDS = {"sigma_lnX": "get_sigma_lnX", "mu_lnX": "get_mu_lnX"}


class Dists:
    """Statistics of a distribution-valued term."""

    def rule(self, t, n):
        if FIELDS and t.op == "f" and len(t.a) == 2 and t.a[1] in FIELDS:
            return self.stat(one(t.a[0]), FIELDS[t.a[1]], n)
        if t.op == "m":
            q = last(t.a[0])
            if q in STAT and len(t.a) == 2:
                return self.stat(one(t.a[1]), q, n)
            if q == "p_at_least" and FIELDS and len(t.a) == 3:
                return n.sub(n.const(1), n.var(n.atom(self.mkey(mk("m", t.a[0].replace("p_at_least", "p_at_most"), *t.a[1:]), n))))
            return n.var(n.atom(self.mkey(t, n)))
        if t.op == "ivar":
            return n.var(n.atom(("ivar",)))
        if t.op == "phi":
            if t in n.ixmap:
                return n.var(n.atom(("ix", n.ixmap[t])))
            if t in n.accs:
                return n.accvar(t)
            r = n.summed(t)
            if r is not None:
                n.closed.add(t)
                return r
            return n.var(n.atom(("phi", t)))
        if t.op == "sumspec":
            L, body, ix = t.a
            return n.within(ix, lambda: n.total(n.nf(body), n.const(0), n.canon(mk("size", L))))
        if t.op == "integral":
            b = one(t.a[1])
            return n.var(n.atom(("integral", n.canon(b) if b.op == "rec" else n.key(n.nf(b))))) if not self.zeroform(b, n) else n.const(0)
        if t.op == "deriv":
            b = n.nf(one(t.a[0]))
            if n.isconst(b) is not None:
                return n.const(0)
            return n.var(n.atom(("deriv", n.key(b), n.canon(one(t.a[1])))))
        return None

    def zeroform(self, b, n):
        return n.iszero(n.nf(b))

    def mkey(self, t, n):
        return ("call", last(t.a[0])) + tuple(n.canon(x) for x in t.a[1:])

    def canon(self, t, n):
        if t.op == "m":
            return self.mkey(t, n)
        return None

    def stat(self, d, q, n):
        mean, sg, sdv = self.moments(d, n)
        half = n.const(Q(1, 2))
        if q == "get_mean_X":
            return mean
        if q == "get_sigma_lnX":
            return sg() if sg else n.pow(n.log(n.add(n.const(1), n.div(n.mul(sdv(), sdv()), n.mul(mean, mean)))), Q(1, 2))
        if q == "get_sigma_X":
            return sdv() if sdv else n.mul(mean, n.pow(n.sub(n.exp(n.mul(sg(), sg())), n.const(1)), Q(1, 2)))
        s = self.stat(d, "get_sigma_lnX", n)
        mu = n.sub(n.log(mean), n.mul(half, n.mul(s, s)))
        return mu if q == "get_mu_lnX" else n.exp(mu)

    def moments(self, d, n):
        """(mean, sigma of the logarithm | None, standard deviation | None)"""
        if d.op == "m":
            q = last(d.a[0])
            if q in FROM and len(d.a) == 3:
                k, s = FROM[q]
                a, b = n.nf(d.a[1]), n.nf(d.a[2])
                if k == "median":
                    a, k = n.log(a), "mu"
                if k == "mu":
                    a = n.exp(n.add(a, n.mul(n.const(Q(1, 2)), n.mul(b, b))))
                if s == "sg":
                    return a, (lambda: b), None
                return a, None, (lambda: b)
            if q in SCALE and len(d.a) == 3:
                m, sg, sv = self.moments(one(d.a[1]), n)
                k = n.nf(d.a[2])
                return n.mul(m, k), sg, ((lambda: n.mul(sv(), k)) if sv else None)
            if q in ("AddWeightedDistributions", "AddDistributions"):
                ds = items(d.a[1])
                ws = items(d.a[2]) if q == "AddWeightedDistributions" and len(d.a) == 3 else None
                if ds is not None and (ws is not None and len(ws) == len(ds) or q == "AddDistributions"):
                    m, v = n.const(0), n.const(0)
                    for i, x in enumerate(ds):
                        x = one(x)
                        mi, si = self.stat(x, "get_mean_X", n), self.stat(x, "get_sigma_X", n)
                        if ws is not None:
                            w = n.nf(ws[i])
                            m = n.add(m, n.mul(mi, w))
                            v = n.add(v, n.mul(w, n.add(n.mul(mi, mi), n.mul(si, si))))
                        else:
                            m = n.add(m, mi)
                            v = n.add(v, n.mul(si, si))
                    if ws is not None:
                        v = n.abs(n.sub(v, n.mul(m, m)))
                    return m, None, (lambda: n.pow(v, Q(1, 2)))
        if d.op == "rec":
            it = {k: v for k, v in d.a[0] if isinstance(k, str)}
            if "mu_lnX" in it and "sigma_lnX" in it:
                if S(NAN) == it["mu_lnX"]:
                    x = n.nf(NAN)
                    return x, (lambda: x), None
                a, b = n.nf(it["mu_lnX"]), n.nf(it["sigma_lnX"])
                return n.exp(n.add(a, n.mul(n.const(Q(1, 2)), n.mul(b, b)))), (lambda: b), None
        k = n.canon(d)
        m, s = n.atom(("mean", k)), n.atom(("sdln", k))
        return n.var(m), (lambda: n.var(s)), None


class DNorm(poly.Norm):
    def __init__(self, zero=(), facts=(), I=None):
        self.d = Dists()
        self.I, self.world = I, frozenset(facts)
        self.ixmap, self.lev, self.accs, self.closed = {}, 0, [], set()
        super().__init__(self.d.rule)
        self.diffs = []
        self.zids = set()
        self.equal = {}
        for t, v in facts:
            if t.op == "eq" and v and all(x.op == "size" for x in t.a):
                x, y = sorted((self.rep(x) for x in t.a), key=lambda x: x.i)
                if x != y:
                    self.equal[y] = x
        for t in zero:
            try:
                r = self.nf(t)
            except Undecided:
                continue
            if len(r.n) == 1 and len(r.d) == 1 and poly.ONE in r.d:
                (m, _), = r.n.items()
                if len(m) == 1:
                    (i, x), = m
                    if self.atoms[i][0] == "a" and x == 1:
                        self.zids.add(i)
            self.zero.add(t)
        self.memo.clear()
        self.kern.clear()
        for t, v in facts:
            if t.op in ("lt", "le"):
                a, b = t.a
                try:
                    x = self.sub(self.nf(a), self.nf(b))
                except Undecided:
                    continue
                # x < 0 / x <= 0 / x >= 0 / x > 0
                self.diffs.append((x, -1) if v else (self.scale(x, Q(-1)), -1))

    def rep(self, t):
        """Of sizes known to be equal, one."""
        while t in self.equal:
            t = self.equal[t]
        return t

    def canon(self, t):
        if isinstance(t, T) and t.op == "size" and t in self.equal:
            t = self.rep(t)
        if isinstance(t, T) and t in self.ixmap:
            return ("ix", self.ixmap[t])
        if isinstance(t, T) and t.op == "m":
            q = last(t.a[0])
            if q in STAT:
                return ("num", self.key(self.nf(t)))
            if (q in FROM or q in SCALE) and len(t.a) == 3:
                return ("dist", self.key(self.d.stat(t, "get_mean_X", self)), self.key(self.d.stat(t, "get_sigma_lnX", self)))
            return self.d.mkey(t, self)
        if isinstance(t, T) and t.op in ("ivar", "integral", "deriv", "phi", "sumspec"):
            if t in self.ixmap:
                return ("ix", self.ixmap[t])
            return ("num", self.key(self.nf(t)))
        if isinstance(t, T) and t.op == "ext" and not self.isfn(t):
            a = t.a[1] if len(t.a) == 2 and isinstance(t.a[1], tuple) else t.a[1:]
            return ("ext", last(t.a[0])) + tuple(self.canon(x) for x in a)
        if isinstance(t, T) and t.op == "rec":
            it = items(t)
            if it is not None:
                return ("list",) + tuple(self.canon(x) for x in it)
            if len(t.a) > 1 and not isinstance(t.a[1], T):
                return ("rec",) + tuple(sorted(((str(k), self.canon(v)) for k, v in t.a[0]), key=repr))
        return super().canon(t)

    def var(self, i, e=Q(1)):
        if i in getattr(self, "zids", ()):
            return RF({})
        return super().var(i, e)

    def extreme(self, kind, xs):
        xs = list(xs)
        if len(xs) == 2:
            a, b = self.isconst(xs[0]), self.isconst(xs[1])
            if a is not None and b is not None:
                return self.const((max if kind == "max" else min)(a, b))
            d = self.sub(xs[0], xs[1])
            for x, s in getattr(self, "diffs", ()):
                if self.eq(d, x):                 # xs[0] <= xs[1]
                    return xs[1] if kind == "max" else xs[0]
                if self.eq(self.scale(d, Q(-1)), x):
                    return xs[0] if kind == "max" else xs[1]
        return super().extreme(kind, xs)


def _sums(cls):
    """Sums: an accumulator of a counting loop, and the specified sum."""
    def within(self, ix, f, facts=None):
        old, w, m = dict(self.ixmap), self.world, self.memo
        self.ixmap[ix] = self.lev
        self.lev += 1
        self.memo = {}
        if facts is not None:
            self.world = facts
        try:
            return f()
        finally:
            self.lev -= 1
            self.ixmap, self.world, self.memo = old, w, m

    def has(self, i, lev):
        k, pl = self.atoms[i]
        if k == "a":
            return self.inkey(pl, lev)
        if k == "int":
            return False
        return any(self.hasrf(x, lev) for x in pl)

    def inkey(self, k, lev):
        if isinstance(k, tuple):
            if k == ("ix", lev):
                return True
            if len(k) == 2 and k[0] == "num" and isinstance(k[1], int):
                return self.hasrf(self.keyed(k[1]), lev)
            if k and k[0] in ("integral", "deriv") and len(k) > 1 and isinstance(k[1], int):
                if self.hasrf(self.keyed(k[1]), lev):
                    return True
            return any(self.inkey(x, lev) for x in k)
        return False

    def keyed(self, i):
        for x, j in self.kern.get("#", ()):
            if j == i:
                return x
        return RF({})

    def hasrf(self, r, lev):
        return any(self.has(i, lev) for q in (r.n, r.d) for m in q for i, _ in m)

    def total(self, d, start, bound):
        """Sum of d over the index, from start to before bound (called within)."""
        lev = self.lev - 1
        if any(self.has(i, lev) for m in d.d for i, _ in m):
            i = self.atom(("sum", self.key(d), self.key(start), bound))
            return self.var(i)
        out = RF({})
        for m, c in d.n.items():
            dep = frozenset((i, x) for i, x in m if self.has(i, lev))
            ind = frozenset((i, x) for i, x in m if not self.has(i, lev))
            i = self.atom(("sum", self.key(RF({dep: Q(1)})), self.key(start), bound))
            t = self.mul(self.mono([ind]), self.var(i)) if ind else self.var(i)
            out = self.add(out, self.scale(t, c))
        return self.mul(out, self.div(self.const(1), RF(d.d)))

    def summed(self, ph):
        """Closed form of a loop accumulator, or None."""
        I = self.I
        if I is None or ph not in I.phi_entry or ph not in I.phi_backs:
            return None
        ent, backs, site = I.phi_entry[ph], I.phi_backs[ph], ph.a[0]
        if len(ent) != 1 or not backs:
            return None
        e0 = next(iter(ent))
        cs = [x for x in I.phi_entry if x.a[0] == site and x != ph and x in I.phi_back and len(I.phi_back[x]) == 1
              and len(I.phi_entry[x]) == 1 and coverage.plus1(next(iter(I.phi_back[x])), x)]
        ends = [(c, t.a[1]) for c in cs for t, v in self.world if t.op == "lt" and t.a[0] == c and not v] + \
               [(c, mk("bin", "+", t.a[1], mk("lit", 1))) for c in cs for t, v in self.world if t.op == "le" and t.a[0] == c and not v] + \
               [(c, o) for c in cs for t, v in self.world if t.op == "eq" and v and c in t.a for o in t.a if o != c]
        each = None
        if len(ends) != 1:
            ls = {x.a[0] for v, f in backs for y in v for x in subterms(y) if x.op == "idx" and x.a[1] == STAR}
            if cs or len(ls) != 1:
                return None
            each = next(iter(ls))
            ix, start, bound = mk("idx*", each), self.const(0), self.canon(mk("size", each))
        else:
            ix, end = ends[0]
            start, bound = self.nf(next(iter(I.phi_entry[ix]))), self.canon(end)

        def work(v, facts):
            def go():
                x = self.nf(v if each is None else star(v, each, ix))
                d = self.sub(x, self.accvar(ph))
                if any(self.atoms[i] == ("a", ("acc", ph)) for q in (d.n, d.d) for m in q for i, _ in m):
                    raise Undecided("not a sum")
                pts = [o for t, b in facts if t.op == "eq" and b and ix in t.a for o in t.a if o != ix]
                return d, pts
            return go
        self.accs.append(ph)
        m = self.memo
        self.memo = {}
        try:
            got = []
            for v, facts in backs:
                got.append(self.within(ix, lambda: (lambda dp: (dp[0], dp[1], self.iszero(dp[0])))(work(v, facts)()), facts))
            out = self.nf(e0)
            live = [(d, pts, facts) for (d, pts, z), (v, facts) in zip(got, backs) if not z]
            if len(live) == 0:
                return out
            if len(live) == 1 and len(backs) == 1:
                return self.add(out, self.within(ix, lambda: self.total(live[0][0], start, bound)))
            if len(live) == 1 and len(live[0][1]) == 1 and all(any(t.op == "eq" and not b and ix in t.a and live[0][1][0] in t.a for t, b in f)
                                                               for (v, f), g in zip(backs, got) if g[2]):
                # only one index contributes
                pt = live[0][1][0]
                if self.eq(self.nf(pt), start) and each is None and end.op == "lit" and self.isconst(start) is None:
                    # the loop may end before it reaches that index
                    self.closed.add(ph)
                    return self.add(out, self.var(self.atom(("partial", self.key(live[0][0])))))
                if self.eq(self.nf(pt), start):
                    v = [v for (v, f), g in zip(backs, got) if not g[2]][0]
                    sub = {ix: pt}
                    x = self.nf(frozenset(subst(y, sub) for y in v))
                    return self.add(out, self.sub(x, self.accvar(ph)))
                k = self.isconst(self.sub(self.nf(pt), start))
                if k is not None and k < 0:
                    return out          # that index is never reached
            pts = [l for l in live if len(l[1]) == 1]
            rest = [l for l in live if not l[1]]
            if len(pts) == 1 and rest and len(live) == len(rest) + 1 and self.eq(self.nf(pts[0][1][0]), start) \
                    and all(self.eq(rest[0][0], d) for d, _, _ in rest[1:]):
                # one value for the first index, another for the others
                sub = {ix: pts[0][1][0]}
                v = [v for (v, f), g in zip(backs, got) if g[1] == pts[0][1] and not g[2]][0]
                x = self.sub(self.nf(frozenset(subst(y, sub) for y in v)), self.accvar(ph))
                later = self.add(start, self.const(1))
                return self.add(self.add(out, x), self.within(ix, lambda: self.total(rest[0][0], later, bound)))
            # the same contribution on every path
            if all(self.eq(live[0][0], d) for d, _, _ in live[1:]) and len(live) == len(backs):
                return self.add(out, self.within(ix, lambda: self.total(live[0][0], start, bound)))
            if all(self.eq(live[0][0], d) for d, _, _ in live[1:]) and not pts:
                # some elements are passed over
                r = [self.within(ix, lambda: self.omitted(live[0][0], f, ix, each), f) for (v, f), g in zip(backs, got) if g[2]]
                if all(x is True for x in r):
                    return self.add(out, self.within(ix, lambda: self.total(live[0][0], start, bound)))
                if False in r:
                    self.closed.add(ph)
                    return self.add(out, self.var(self.atom(("partial", self.key(live[0][0])))))
            return None
        except Undecided:
            return None
        finally:
            self.accs.pop()
            self.memo = m

    def omitted(self, d, facts, ix, each):
        """Is the contribution zero wherever the element is passed over?"""
        there = lambda t: any(x.op == "idx" and x.a[1] in (ix, STAR) for x in subterms(t))
        fs = [(t, b) for t, b in facts if there(t)]
        if not fs or any(t.op not in ("lt", "le", "eq") for t, b in fs):
            return None
        z = zeros(frozenset(fs))
        if z is None:
            return True
        z |= {t.a[0] for t, b in fs if t.op == "lt" and b and t.a[1] == mk("lit", 0)}
        ids = set()
        for t in z:
            r = self.nf(t if each is None else star(t, each, ix))
            if len(r.n) == 1 and len(r.d) == 1 and poly.ONE in r.d:
                (m, _), = r.n.items()
                if len(m) == 1:
                    ids |= {i for i, x in m}
        return all(any(i in ids for i, _ in m) for m in d.n)

    def accvar(self, ph):
        return self.var(self.atom(("acc", ph)))

    for f in (within, has, inkey, keyed, hasrf, total, summed, omitted, accvar):
        setattr(cls, f.__name__, f)
    cls.accs = None
    return cls


def star(v, each, ix):
    return subst(v, {mk("idx", each, STAR): mk("idx", each, ix)})


_sums(DNorm)


def total(lst, f):
    ix = mk("six", str(id(f)))
    return E(mk("sumspec", term(lst), term(f(E(mk("idx", term(lst), ix)))), ix))


def totals(lst, f):
    """f(index) over the indices of a list"""
    ix = mk("six", str(id(f)))
    return E(mk("sumspec", term(lst), term(f(E(ix))), ix))


def hasnan(t):
    return any(x == NAN for x in subterms(t))


def zeros(facts, keepnan=False):
    """Quantities a path knows to be zero (probabilities and means are not
    negative, so 'not above zero' says the same); None: the path is not one."""
    z = set()
    L0 = mk("lit", 0)
    iszero = lambda t: t.op == "lit" and isinstance(t.a[0], (int, float)) and t.a[0] == 0
    for t, v in facts:
        if t.op in ("eq", "lt", "le") and hasnan(t):
            if v:
                return None
            continue
        if keepnan:
            pass
        elif t.op == "isnan" and v or t.op == "ext" and t.a[0] in ("isnan", "std::isnan") and v:
            return None
        if t.op == "eq":
            a, b = t.a
            if v:
                for x, y in ((a, b), (b, a)):
                    if iszero(x):
                        if y.op == "ivar":
                            return None
                        z.add(y)
                if (a.op == "ivar" or b.op == "ivar") and not any(y.op == "lit" and isinstance(y.a[0], (int, float)) and y.a[0] for y in (a, b)):
                    return None
        elif t.op in ("lt", "le"):
            a, b = t.a
            # lt(0,y) false / le(y,0) true: y is zero
            if t.op == "lt" and not v and iszero(a) or t.op == "le" and v and iszero(b):
                y = b if t.op == "lt" else a
                if y.op == "ivar":
                    return None
                if y.op != "bin":       # a difference can be below zero
                    z.add(y)
            if t.op == "lt" and v and iszero(b) and a.op in ("ivar",):
                return None
            if t.op == "le" and not v and iszero(a) and b.op == "ivar":
                return None
    return z


KNOWNOPS = {"trunc", "lit", "bin", "un", "ext", "m", "f", "param", "obj", "rec", "integral", "ivar", "deriv", "nan", "idx", "inf", "eq", "lt", "le",
            "isnull", "clo", "size", "first", "second", "icall", "g"}
LIB = STAT | set(FROM) | SCALE | {"AddWeightedDistributions", "AddDistributions", "operator()", "p_at_least", "p_at_most", "x_at_p"}


def foreign(t, voc, n=None, sites=frozenset()):
    """A part of the value the specification has no word for."""
    if isinstance(t, frozenset):
        for x in t:
            r = foreign(x, voc, n, sites)
            if r:
                return r
        return None
    st, seen = [t], set()
    while st:
        x = st.pop()
        if isinstance(x, (tuple, frozenset)):
            st.extend(x)
            continue
        if not isinstance(x, T) or x in seen:
            continue
        seen.add(x)
        if x.op == "phi":
            if x.a[0] in sites:
                continue
            if n is not None and x in n.closed:
                for v, _ in n.I.phi_backs[x]:
                    r = foreign(v, voc, n, sites | {x.a[0]})
                    if r:
                        return r
                continue
            return show(x)[:60]
        if x.op == "v" and sites:
            continue
        if x.op not in KNOWNOPS:
            return show(x)[:60]
        q = last(x.a[0]) if x.op in ("m", "ext") else ""
        if x.op == "m" and q not in voc and q not in LIB:
            return show(x)[:60]
        if x.op == "ext" and q not in MATH and q not in voc:
            return show(x)[:60]
        if x.op == "rec":
            for k, v in x.a[0]:
                st += [k, v]
            if not x.a[0] and len(x.a) > 1 and not isinstance(x.a[1], str):
                st.append(x.a[1])
        elif x.op != "g":
            st.extend(x.a)
    return None


def voc_of(t):
    return {last(x.a[0]) for x in subterms(term(t)) if x.op in ("m", "ext")}


def agree(kind, v, want, facts, z, voc, I=None):
    """(True/False/None, text)"""
    try:
        if kind == "pair":
            a, b = pairof(v), pairof(term(want))
            if a is None or b is None:
                return None, "not a pair: " + show(v)[:80]
            rs = [agree(k, x, y, facts, z, voc, I) for k, x, y in zip(("dist", "dist"), a, b)]
            bad = [r for r in rs if r[0] is not True]
            return bad[0] if bad else (True, "")
        n = DNorm(z, facts, I)
        w = term(want)
        if kind == "dist":
            parts = []
            for q in ("get_mean_X", "get_sigma_X", "get_sigma_lnX"):
                if q != "get_mean_X":
                    # the standard deviation where both give one, else that of the logarithm
                    direct = all(n.d.moments(one(x), n)[2] for x in (v, w))
                    if (q == "get_sigma_X") != bool(direct):
                        continue
                parts.append((q, n.d.stat(one(v), q, n), n.d.stat(one(w), q, n)))
        else:
            parts = [("value", n.nf(v), n.nf(w))]
        for q, a, b in parts:
            r = poly.same(n, a, b)
            if r is True:
                continue
            text = "%s is %s, specified: %s" % (q.replace("get_", ""), n.show(a)[:220], n.show(b)[:220])
            if q == "get_sigma_lnX" or q == "get_sigma_X":
                # undefined where the mean is zero
                if n.iszero(parts[0][1]):
                    continue
            if r is False and not foreign(v, voc, n):
                return False, text
            return None, text + ((" [%s]" % foreign(v, voc, n)) if foreign(v, voc, n) else "")
        return True, ""
    except Undecided as ex:
        return None, str(ex)


def pairof(t):
    t = one(t)
    if t.op == "rec":
        it = dict(t.a[0])
        if "first" in it and "second" in it:
            return one(it["first"]), one(it["second"])
    if t.op == "ext" and last(t.a[0]) in ("make_pair", "pair"):
        a = t.a[1] if isinstance(t.a[1], tuple) else t.a[1:]
        if len(a) == 2:
            return one(a[0]), one(a[1])
    return None


def pair(a, b):
    return E(mk("rec", (("first", S(term(a))), ("second", S(term(b)))), "spec"))


def judge(c, rule, at, what, outs, kind, spec, voc=(), known=None, I=None, nan=False):
    """One obligation: on every path the function returns what is specified.
    spec(facts) -> E | [E alternatives] | None (this path is not specified)."""
    bad = und = listed = None
    n = 0
    for w, o in outs:
        if o != "return":
            continue
        z = zeros(w.facts, nan)
        if z is None:
            continue
        want = spec(Facts(w.facts))
        if want is None:
            continue
        vs = w.ret or frozenset()
        if not vs:
            continue
        # a list of cases: each that can occur on the path must agree
        many = getattr(want, "exact", None) is not None
        if many and not want:
            continue
        groups = list(want) if many else [(want if isinstance(want, list) else [want], {})]
        n += 1
        for v in vs:
            miss = []
            for alts, more in groups:
                facts, z2 = w.facts, z
                if more:
                    facts = dict(w.facts)
                    facts.update(more)
                    facts = frozenset(facts.items())
                    z2 = zeros(facts, nan)
                    if z2 is None:
                        continue
                rs = [agree(kind, v, a, facts, z2, set(voc) | voc_of(a), I) for a in alts]
                if not any(r[0] is True for r in rs):
                    miss.append((rs[0], more, False if all(r[0] is False for r in rs) else None))
            if not miss:
                continue
            if known and len(vs) == 1:
                k, f = known
                w2 = f(Facts(w.facts))
                if w2 is not None and agree(kind, v, w2, w.facts, z, set(voc) | voc_of(w2), I)[0] is True:
                    listed = miss[0][0][1]
                    continue
            r, more, sure = miss[0]
            cond = ", ".join(sorted(("" if b else "not ") + show(t)[:60] for t, b in w.facts))[:160]
            if more:
                cond = ", ".join(show(t)[:60] for t in more) + " on a path with " + (cond or "no condition")
            text = r[1] + (" when " + cond if cond else "")
            sure = r[0] if not many else sure if len(miss) == len(groups) or want.exact else None
            if sure is False and len(vs) == 1:
                bad = bad or text
            else:
                und = und or text
    ok = False if bad else (None if und or not n else True)
    if listed and not bad:
        c.ob(rule, at, what, False, listed, key=known[0])
    else:
        c.ob(rule, at, what, ok, bad or und or "")
    return ok


def run_fn(p, f, client, cls=None, args=None, world=None):
    """[(world, outcome)] of a function on canonical parameters a0, a1, ..."""
    I = Interp(p, client)
    if args is None:
        args = [S(mk("param", "a%d" % i)) for i in range(len(f["params"]))]
    this = S(mk("obj", cls or f["rec"])) if f.get("rec") and not f.get("smethod") else None
    outs = I.run(f, this=this, args=args, world=world)
    return outs, I


def run_cache(m, cls, field, client):
    """The calculation behind a cached result: [(function, outcomes, interpreter)]"""
    inf = model.info(m, cls)
    out = []
    for clo in sorted(inf.cacheclo.get(field, ()), key=show):
        ctor, f = inf.clofn[clo], m.p.funcs[clo.a[0]]
        I = Interp(m.p, client)
        e = {"k": "call", "l": ctor["line"], "a": []}
        I.tstack.append([])
        res = I.invoke1(e, World(), model.entry_frame(ctor), clo, [("V", S(mk("param", "a%d" % i))) for i in range(len(f["params"]))])
        I.tstack.pop()
        outs = []
        for w, (k, v) in res:
            w = w.copy()
            if k == "L":
                v = frozenset().union(*[I.read1(w, x) for x in v])
            w.ret = v
            outs.append((w, "return"))
        out.append((f, outs, I))
    return out


def guarded(c, rule, at, what, go):
    """An internal error leaves its obligation undecided."""
    try:
        go()
    except TooBig as ex:
        c.ob(rule, at, what, None, str(ex))
    except (RecursionError, Undecided):
        c.ob(rule, at, what, None, "too deep")
    except Exception as ex:
        import traceback
        c.ob(rule, at, what, None, "internal error: %r %s" % (ex, traceback.format_exc()[-300:]))


class Table:
    """Specified values of a set of functions and cached calculations."""

    def __init__(self, c, m, voc, inline=()):
        self.c, self.m, self.p, self.voc, self.inline = c, m, m.p, set(voc), set(inline)

    def client(self, name, opaque=(), inline=()):
        return Vocab((self.voc | set(opaque)) - set(inline), inline=self.inline | set(inline), own=name)

    def fns(self, q, ok=None):
        for f in self.p.fn(q):
            if "body" not in f or f.get("islambda") or f.get("defaulted") or f.get("implicit"):
                continue
            if any("vector" in x["t"] for x in f["params"]) if ok is None else not ok(f):
                continue
            yield f

    def fn(self, rule, q, spec, kind="num", ok=None, opaque=(), inline=(), pick=None, what=None, world=None, args=None, cls=None, known=None, nan=False, recs=None):
        for f in self.fns(q, ok):
            guarded(self.c, rule, where(f), what or sig(f), lambda: self.fn1(f, rule, spec, kind, opaque, inline, pick, what, world, args, cls, known, nan, recs))

    def fn1(self, f, rule, spec, kind, opaque, inline, pick, what, world, args, cls, known, nan, recs):
            cl = self.client(f["name"], opaque, inline)
            if recs is not None:
                cl.recs = set(recs)
            outs, I = run_fn(self.p, f, cl, cls=cls, args=args, world=world)
            self.c.functions |= I.inlined | {f["id"]}
            if pick:
                outs = pick(outs)
            judge(self.c, rule, where(f), what or sig(f), outs, kind, spec if callable(spec) else (lambda facts: spec), self.voc | set(opaque), known, I, nan)

    def cache(self, rule, cls, field, spec, kind="num", opaque=(), inline=(), calc=(), known=None):
        guarded(self.c, rule, cls, "%s: calculation of %s" % (short(cls), field), lambda: self.cache1(rule, cls, field, spec, kind, opaque, inline, calc, known))

    def cache1(self, rule, cls, field, spec, kind, opaque, inline, calc, known):
        got = run_cache(self.m, cls, field, Vocab((self.voc | set(opaque)) - set(inline) - set(calc), inline=self.inline | set(inline)))
        for f, outs, I in got:
            self.c.functions |= I.inlined | {f["id"]}
            judge(self.c, rule, where(f), "%s: calculation of %s" % (short(cls), field), outs, kind,
                  spec if callable(spec) else (lambda facts: spec), self.voc | set(opaque), known, I)


def failed(facts):
    """A path on which an integration failed."""
    return any(t.op == "isuccess" and not v for t, v in facts.f.items())


def member(name):
    """Takes one member of the object a function returns."""
    def g(outs):
        out = []
        for w, o in outs:
            if o != "return" or not w.ret:
                continue
            w2 = w.copy()
            v = frozenset()
            for r in w.ret:
                it = dict(r.a[0]) if r.op == "rec" else {}
                x = it.get(name)
                v |= x if x is not None else S(mk("f", r.a[1] if r.op == "rec" and isinstance(r.a[1], T) else r, name))
            w2.ret = v
            out.append((w2, o))
        return out
    return g


def unless_failed(want):
    return lambda facts: None if failed(facts) else want


# ---- lists
IX = mk("param", "#i")


def cells(I, ix, vals):
    """[(value, facts)] of the iterations which wrote the element at ix."""
    for k, backs in I.cell_backs.items():
        if k.op != "idx" or k.a[1] != ix:
            continue
        u = frozenset().union(*[v or frozenset() for v, _ in backs])
        if u == vals:
            return backs
    return None


def elements(I, r, facts, sizes):
    """The elements of a list built by a loop:
    (covered True/False/None, detail, [(value at IX, facts)] or None, size ok)"""
    if r.op != "rec" or len(r.a) < 2 or not isinstance(r.a[1], T):
        return None, "the list is " + show(r)[:100], None, None
    tag, items = r.a[1], dict(r.a[0])
    sized = None
    if tag.op == "sized" and len(tag.a[0]) == 1:
        n = next(iter(tag.a[0]))
        sized = True if n in sizes else False if n.op == "lit" or n.op == "bin" and n.a[1] in sizes and n.a[2].op == "lit" else None
    phs = [x for x in items if isinstance(x, T) and any(y.op == "phi" for y in subterms(x))]
    if not phs and tag.op == "sized" and sized and not set(items) - {STAR} and items.get(STAR, frozenset()) <= {mk("dflt")}:
        return False, "no element of the list is set", None, sized
    if len(phs) != 1:
        return None, "elements stored at %d different indices" % len(phs), None, sized
    if items.get(STAR, frozenset()) - {mk("dflt")}:
        return None, "an element at an unknown index is changed", None, sized
    ix = phs[0]
    ph = [y for y in subterms(ix) if y.op == "phi"]
    vs = items[ix] - {mk("dflt")}
    if len(ph) != 1 or not vs:
        return None, "", None, sized
    cov, det = coverage.counter(I, ph[0], sizes, facts)
    if cov == "down":
        cov = True if coverage.minus1(ix, ph[0]) else None
    elif ix != ph[0] and cov is True:
        cov, det = (False, "elements are stored at %s" % show(ix)) if ix.op == "bin" and ix.a[2].op == "lit" else (None, "elements are stored at %s" % show(ix))
    got = cells(I, ix, items[ix]) or cells(I, ix, vs)
    if got is None:
        got = [(vs, facts)] if len(vs) == 1 else None
    elif any(v is None or mk("dflt") in v for v, _ in got):
        got = None if len(vs) > 1 else [(vs, facts)]
    if got is not None:
        sub = {ix: IX}
        got = [(frozenset(subst(x, sub) for x in v), frozenset((subst(t, sub), b) for t, b in f)) for v, f in got]
    return cov, det, got, sized


def judge_list(c, rule, at, what, outs, kind, size, spec, voc=(), I=None, nan=False, sizes=()):
    """The list returned has `size` elements, element i being spec(i, facts)."""
    size = {term(x) for x in ([size] if not isinstance(size, (list, tuple)) else size)}
    n = 0
    oks = []
    for w, o in outs:
        if o != "return" or not w.ret or zeros(w.facts, nan) is None:
            continue
        for r in w.ret:
            cov, det, got, sized = elements(I, r, w.facts, size)
            n += 1
            if cov is False:
                oks.append((False, det))
                continue
            if got is None or cov is None:
                oks.append((None, det or "elements not understood"))
                continue
            if sized is False:
                oks.append((False, "the list has another size"))
                continue
            outs2 = []
            for v, f in got:
                w2 = w.copy()
                w2.ret, w2.facts = earlier(v, f, spec) if cov is True else (v, f)
                outs2.append((w2, "return"))
            sub = Sub()
            judge(sub, rule, at, what, outs2, kind, lambda f: spec(E(IX), f), voc, I=I, nan=nan)
            oks.append((sub.ok, sub.detail))
            for k, v in r.a[0]:
                # elements written one by one
                if isinstance(k, T) and k is not STAR and not any(y.op == "phi" for y in subterms(k)):
                    w2 = w.copy()
                    w2.ret = v
                    judge(sub, rule, at, what, [(w2, "return")], kind, lambda f: spec(E(k), f), voc, I=I, nan=nan)
                    oks.append((sub.ok, "element %s: %s" % (show(k), sub.detail)))
    bad = [d for k, d in oks if k is False]
    und = [d for k, d in oks if k is None]
    c.ob(rule, at, what, False if bad else None if und or not n else True, (bad or und or [""])[0])


def earlier(v, f, spec):
    """By induction on the index: where the element is calculated from earlier
    elements of the list itself, those are as specified."""
    sub = {}
    for x in {x for t in list(v) + [t for t, _ in f] for x in subterms(t) if x.op == "prior"}:
        b, k = linear(x.a[1])
        if b == IX and k < 0:
            want = spec(E(x.a[1]), Facts(f))
            if isinstance(want, E):
                sub[x] = want.t
    if not sub:
        return v, f
    return frozenset(subst(t, sub) for t in v), frozenset((subst(t, sub), b) for t, b in f)


class Sub:
    ok, detail = None, ""

    def ob(self, rule, at, what, ok, detail="", key=None):
        self.ok, self.detail = ok, detail


def argument(name, k):
    """Takes one argument of the call a function returns."""
    def g(outs):
        out = []
        for w, o in outs:
            if o != "return" or not w.ret:
                continue
            w2 = w.copy()
            w2.ret = frozenset()
            for r in w.ret:
                if r.op == "m" and last(r.a[0]) == name and len(r.a) > k + 1:
                    w2.ret |= r.a[k + 1]
                else:
                    w2.ret |= S(mk("top", "not a call of " + name))
            out.append((w2, o))
        return out
    return g


def _lst(self, rule, q, size, spec, kind="num", ok=None, opaque=(), inline=(), pick=None, what=None, nan=False, cls=None, args=None):
    def go(f):
        outs, I = run_fn(self.p, f, self.client(f["name"], opaque, inline), cls=cls, args=args)
        self.c.functions |= I.inlined | {f["id"]}
        if pick:
            outs = pick(outs)
        judge_list(self.c, rule, where(f), what or sig(f), outs, kind, size, spec, self.voc | set(opaque), I, nan)
    for f in self.fns(q, ok):
        guarded(self.c, rule, where(f), what or sig(f), lambda: go(f))


Table.list = _lst


def size(x):
    return E(mk("size", term(x)))


def linear(t):
    """t as (term, integer) sum; (None, integer) for a number."""
    if t.op == "lit" and isinstance(t.a[0], (int, float)) and not isinstance(t.a[0], bool) and t.a[0] == int(t.a[0]):
        return None, int(t.a[0])
    if t.op == "bin" and t.a[0] in "+-" and len(t.a[0]) == 1:
        (x, i), (y, j) = linear(t.a[1]), linear(t.a[2])
        s = 1 if t.a[0] == "+" else -1
        if y is None:
            return x, i + s * j
        if x is None and s == 1:
            return y, i + j
    return t, 0


def lin(x, k):
    if x is None:
        return mk("lit", k)
    return mk("bin", "+", x, mk("lit", k)) if k > 0 else mk("bin", "-", x, mk("lit", -k)) if k < 0 else x


def relin(t):
    """Indices as a term plus a number."""
    if isinstance(t, frozenset):
        return frozenset(relin(x) for x in t)
    if isinstance(t, tuple):
        return tuple(relin(x) for x in t)
    if not isinstance(t, T):
        return t
    if t.op == "bin" and t.a[0] in ("+", "-"):
        x, k = linear(t)
        if x is not t:
            return lin(relin(x) if x is not None else None, k)
    return mk(t.op, *(relin(x) for x in t.a))


class Range:
    """Elements lo <= i < hi of a list, written by one loop."""
    lo = hi = cells = None
    why = ""


def ranges(I, r, facts):
    """(base, [Range], {index: values}) of a list, or None."""
    if r.op != "rec" or len(r.a) < 2:
        return (r, [], {}) if r.op == "m" else None
    out, pts = [], {}
    for k, v in r.a[0]:
        if not isinstance(k, T):
            return None
        ph = [y for y in subterms(k) if y.op == "phi"]
        if not ph:
            pts[relin(k)] = v
            continue
        x, off = linear(k)
        if len(ph) != 1 or x != ph[0]:
            return None
        g = Range()
        ent, back = I.phi_entry.get(x), I.phi_back.get(x)
        if not ent or not back or len(ent) != 1 or len(back) != 1:
            return None
        e, b = next(iter(ent)), next(iter(back))
        if coverage.plus1(b, x):
            ends = [(t.a[1], 0) for t, q in facts if t.op == "lt" and t.a[0] == x and not q] + \
                   [(t.a[1], 1) for t, q in facts if t.op == "le" and t.a[0] == x and not q] + \
                   [(o, 0) for t, q in facts if t.op == "eq" and q and x in t.a for o in t.a if o != x]
            # i + 1 < n
            for t, q in facts:
                if t.op in ("lt", "le") and not q and t.a[0] != x and linear(t.a[0])[0] == x:
                    y, j = linear(t.a[1])
                    ends.append((lin(y, j - linear(t.a[0])[1]), 1 if t.op == "le" else 0))
            if len(ends) != 1:
                return None
            lo, hi = linear(e), linear(ends[0][0])
            g.lo, g.hi = (lo[0], lo[1] + off), (hi[0], hi[1] + ends[0][1] + off)
            up = True
        elif coverage.minus1(b, x):
            ends = [t for t, q in facts if (t.op == "lt" and t.a == (mk("lit", 0), x) and not q) or
                    (t.op == "eq" and x in t.a and mk("lit", 0) in t.a and q)]
            if len(ends) != 1:
                return None
            hi = linear(e)
            # the counter is used as it is after the test: lo+1 .. e
            g.lo, g.hi = (None, 1 + off), (hi[0], hi[1] + 1 + off)
            up = False
        else:
            return None
        fresh = [c for q, c in I.cell_fresh.items() if q.op == "idx" and q.a[1] == k]
        if v and all(t.op == "phi" and t.a[1].op == "idx" and t.a[1].a[1] == k for t in v):
            if len(fresh) != 1:
                return None
            got = fresh[0]
            # earlier iterations must not have written what this one reads
            base = r.a[1]
            for val, fs in got:
                for y in [z for t in val for z in subterms(t)] + [z for t, _ in fs for z in subterms(t)]:
                    if y.op == "idx" and y.a[0] == base and any(z == x for z in subterms(y.a[1])):
                        q, j = linear(y.a[1])
                        if q != x or (j < off if up else j > off):
                            return None
        else:
            got = cells(I, k, v)
            if got is None:
                got = [(v - {mk("dflt")}, facts)] if len(v - {mk("dflt")}) == 1 else None
            elif any(z is None or mk("dflt") in z for z, _ in got):
                u = v - {mk("dflt")}
                got = [(u, facts)] if len(u) == 1 else None
            if got is None:
                return None
        sub = {x: lin(IX, -off)}
        g.cells = [(relin(subst(z, sub)), frozenset((relin(subst(t, sub)), q) for t, q in fs)) for z, fs in got]
        out.append(g)
    return r.a[1], out, pts


def _cachelist(self, rule, cls, field, size, spec, kind="num", opaque=(), inline=(), nan=False):
    def go():
      for f, outs, I in run_cache(self.m, cls, field, Vocab((self.voc | set(opaque)) - set(inline), inline=self.inline | set(inline))):
        self.c.functions |= I.inlined | {f["id"]}
        judge_list(self.c, rule, where(f), "%s: calculation of %s" % (short(cls), field), outs, kind, size, spec, self.voc | set(opaque), I, nan)
    guarded(self.c, rule, cls, "%s: calculation of %s" % (short(cls), field), go)


Table.cachelist = _cachelist
