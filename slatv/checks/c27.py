"""C27: damage states are ordered, and their probabilities are those of their onsets."""
from ..formula import *

RULE = ("The list of exceedance probabilities is read from the source as one element per damage state; element i must be the "
        "probability that state i's onset is at most the demand. The list of probabilities of the highest state must be, "
        "element by element, the difference between successive exceedance probabilities, not below zero, and the last one "
        "itself. The constructor must refuse, on every path, a state whose onset is not above its predecessor's.")

R = "each damage state's probability is its own onset's"
H = "the probability of the highest state is the difference of successive exceedances"
G = "SLAT::FragilityFn"


def run(thorough=False):
    c = Check("C27", RULE, thorough)
    m = the_model()
    t = Table(c, m, {"p_at_most"})
    g, x = obj(G), param("a0")
    ds = fld(g, "damage_states")
    n = [size(ds)]
    t.list(R, G + "::pExceeded", n, lambda i, f: call("p_at_most", idx(ds, i), x), ok=lambda f: True)
    highest(c, m, t, g, ds, x)
    c.need(R, 1)
    return c.finish()


def highest(c, m, t, g, ds, x):
    """element i is exceeded(i) - exceeded(i + 1), not below zero; the last one exceeded(n - 1)"""
    pe = call("pExceeded", g, x)
    forms = [lambda i: idx(pe, i), lambda i: call("p_at_most", idx(ds, i), x)]
    for f in t.fns(G + "::pHighest", lambda f: True):
        try:
            outs, I = run_fn(m.p, f, t.client("pHighest", {"pExceeded"}))
        except TooBig as ex:
            c.ob(H, where(f), sig(f), None, str(ex))
            continue
        c.functions |= I.inlined | {f["id"]}
        res = [one_list(c, I, w, r, ds, pe, forms, where(f)) for w, o in outs if o == "return" for r in (w.ret or ())]
        bad, und = [d for k, d in res if k is False], [d for k, d in res if k is None]
        c.ob(H, where(f), sig(f), False if bad else None if und or not res else True, (bad or und or [""])[0])


def one_list(c, I, w, r, ds, pe, forms, at):
    got = ranges(I, r, w.facts)
    if got is None:
        return None, "not understood: " + show(r)[:160]
    base, rs, pts = got
    ns = [(mk("size", ds.t), 0), (mk("size", norm_call(I, r, pe)), 0)]
    if len(rs) != 1:
        return None, "%d loops" % len(rs)
    g = rs[0]
    end = [(x, g.hi[1]) for x, _ in ns if g.hi[0] == x]
    inplace = base.op == "m" and last(base.a[0]) == "pExceeded"
    if not end:
        return None, "the loop ends at %s" % show(lin(*g.hi))
    n, k = end[0]
    if g.lo != (None, 0):
        return (False, "the first element calculated is element %s" % show(lin(*g.lo))) if g.lo[0] is None and inplace else (None, "starts at %s" % show(lin(*g.lo)))
    alts = [x for x, _ in ns]
    pts = {lin(n, linear(q)[1]) if linear(q)[0] in alts else q: v for q, v in pts.items()}
    if set(pts) - {lin(n, -1)}:
        return None, "single elements are written"
    lastv = pts.get(lin(n, -1))
    if lastv is not None:
        lasts = [(lastv, w.facts)]
    elif k == -1:
        if not inplace:
            return None, "the last element is not written"
        lasts = [(S(mk("idx", base, lin(n, -1))), w.facts)]
    elif k == 0:
        lasts = None
    else:
        return (False, "the last %d elements are left as they were" % -k if k < 0 else "the loop runs beyond the end") if inplace else (None, "ends at %s" % show(lin(*g.hi)))

    def islast(f):
        """does the path know whether its element is the last?"""
        for t, v in f.f.items():
            if t.op in ("lt", "le"):
                (a, i), (b, j) = linear(t.a[0]), linear(t.a[1])
                if a == IX and b == n:
                    s = i - j + (0 if t.op == "lt" else -1)      # IX + s < n
                    if s == 1:
                        return not v
                if b == IX and a == n:
                    s = j - i + (0 if t.op == "le" else -1)      # n <= IX + s
                    if s == 1:
                        return v
            if t.op == "eq":
                for p_, q in (t.a, t.a[::-1]):
                    (a, i), (b, j) = linear(p_), linear(q)
                    if a == IX and b == n and i - j == 1:
                        return v
        return None

    def check(cells, spec, what):
        sub = Sub()
        outs = []
        for v, fs in cells:
            w2 = w.copy()
            w2.ret, w2.facts = v, fs
            outs.append((w2, "return"))
        judge(sub, H, at, what, outs, "num", spec, {"pExceeded", "p_at_most"}, I=I)
        return sub.ok, sub.detail

    def diff(f):
        e = islast(f) if k == 0 and lastv is None else False
        if e is None:
            return [None]
        if e:
            return [P(E(IX)) for P in forms] + [maxv(0, P(E(IX))) for P in forms]
        return [maxv(0, P(E(IX)) - P(E(lin(IX, 1)))) for P in forms]
    if k == 0 and lastv is None and any(islast(Facts(fs)) is None for _, fs in g.cells):
        return None, "which element is the last is not understood"
    a = check(g.cells, diff, "element i")
    if a[0] is not True or lasts is None:
        return a
    return check(lasts, lambda f: [P(E(lin(n, -1))) for P in forms], "the last element")


def norm_call(I, r, pe):
    for y in subterms(r):
        if y.op == "m" and last(y.a[0]) == "pExceeded":
            return y
    return pe.t
