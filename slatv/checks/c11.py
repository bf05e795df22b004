"""C11: integration settings are what was last validly set."""
from ..formula import *

RULE = ("Each setter of the integration settings is interpreted abstractly, path by path: on every path it leaves the other "
        "settings as they were, and its own setting (the one its getter returns) is the argument on the paths which know the "
        "argument to be above zero and unchanged on all others. Restoring a default leaves the setting at the value it has "
        "before anything is set, and a reset restores every one.")

G = "a getter returns its own setting"
S_ = "a setter stores a valid value and refuses any other"
D = "restoring a default leaves the initial value"
O = "a setter leaves the other settings as they were"
CL = "SLAT::Integration::IntegrationSettings::"
NAMES = (("Tolerance", "Tolerance", True), ("Integration_Eval_Limit", "Integration_Eval_Limit", True),
         ("Integration_Search_Limit", "Integration_Search_Limit", True), ("Integration_Method", "Method", False))


class Setting(Client):
    merge = "paths"

    def policy(self, e, fn, obj):
        return "inline" if fn is not None and "body" in fn and fn["file"].endswith(("maq.cpp", "maq.h")) else "opaque"


def run1(c, p, name, nargs=None):
    out = []
    for f in p.fn(CL + name):
        if "body" not in f:
            continue
        I = Interp(p, Setting())
        for w, o in I.run(f, args=[S(mk("param", "a%d" % i)) for i in range(len(f["params"]))]):
            if o == "return":
                out.append((f, w))
        c.functions |= I.inlined | {f["id"]}
    return out


def run(thorough=False):
    c = Check("C11", RULE, thorough)
    m = the_model()
    p = m.p
    locs = {}
    for n, d, pos in NAMES:
        for f, w in run1(c, p, "Get_" + n):
            r = next(iter(w.ret)) if w.ret and len(w.ret) == 1 else None
            locs[n] = r if r is not None and r.op in ("g", "f") else None
            c.ob(G, where(f), sig(f), True if locs[n] is not None else None, "returns " + (show(w.ret) if w.ret else "nothing"))
    known = {n: l for n, l in locs.items() if l is not None}
    for a in known:
        for b in known:
            if a < b and known[a] == known[b]:
                c.ob(G, "maq.cpp", "Get_" + a, False, "returns the same setting as Get_" + b)
    initial = {n: init(c, p, l) for n, l in known.items()}
    inv = {l: n for n, l in known.items()}
    for n, d, pos in NAMES:
        if n not in known:
            continue
        l, a = known[n], mk("param", "a0")
        paths = run1(c, p, "Set_" + n)
        for fid in sorted({f["id"] for f, w in paths}):
            ps = [(f, w) for f, w in paths if f["id"] == fid]
            f = ps[0][0]
            setter(c, f, [w for _, w in ps], l, a, pos)
            for _, w in ps:
                others(c, f, w, l, inv, sig(f))
        for f, w in run1(c, p, "Use_Default_" + d):
            default(c, f, w, l, n, initial, sig(f))
            others(c, f, w, l, inv, sig(f))
    for f, w in run1(c, p, "Reset"):
        for n, l in known.items():
            default(c, f, w, l, n, initial, "%s: %s" % (sig(f), n))
    c.need(G, 2)
    c.need(S_, 2)
    return c.finish()


def setter(c, f, ws, l, a, pos):
    """The argument's values in classes no path can tell apart: the numbers
    the paths compare it with, one between each two, one beyond each end."""
    ty = f["params"][0]["t"]
    lits = {0}
    for w in ws:
        for t, _ in w.facts:
            if a in subterms(t):
                lits |= {x.a[0] for x in subterms(t) if x.op == "lit" and isinstance(x.a[0], (int, float)) and not isinstance(x.a[0], bool)}
        for t in w.store.get(l) or ():
            lits |= {x.a[0] for x in subterms(t) if x.op == "lit" and isinstance(x.a[0], (int, float)) and not isinstance(x.a[0], bool)}
    ls = sorted(lits)
    vals = set(ls)
    if "double" in ty:
        vals |= {(x + y) / 2 for x, y in zip(ls, ls[1:])} | {ls[0] - 1.0, ls[-1] + 1.0, 1e-300, -1e-300, float("nan")}
    elif "unsigned" in ty:
        vals |= {x + 1 for x in ls} | {x - 1 for x in ls}
        vals = {int(x) for x in vals if x >= 0}
    else:
        vals |= {x + 1 for x in ls} | {x - 1 for x in ls}
    if not pos:
        vals = {2}
    res = []
    for v in sorted(vals, key=str):
        valid = not pos or v > 0
        hit = False
        for w in ws:
            ok = [truth(t, a, v) for t, q in w.facts if a in subterms(t)]
            qs = [q for t, q in w.facts if a in subterms(t)]
            if any(k is None for k in ok):
                res.append((None, "a test was not understood"))
                hit = True
                continue
            if any(k != q for k, q in zip(ok, qs)):
                continue
            hit = True
            got = w.store.get(l) or S(l)
            kept, stored = got == S(l), got == S(a)
            if kept or stored:
                res.append((stored if valid else kept, "%s is %s" % (v, "stored" if stored else "refused")))
            else:
                known = len(got) == 1 and all(x.op in ("lit", "g", "param", "bin", "un") or x.op == "ext" and last(x.a[0]) in BOUNDS for x in subterms(next(iter(got))))
                got1 = value(next(iter(got)), a, v) if known else None
                same = known and valid and got1 == v
                if known and got1 is None and valid and not any(x.op == "g" for x in subterms(next(iter(got)))):
                    known = False
                res.append((True if same else False if known else None, "for %s, %s is stored" % (v, show(got))))
        if not hit:
            res.append((None, "no path for %s" % v))
    bad, und = [d for o, d in res if o is False], [d for o, d in res if o is None]
    c.ob(S_, where(f), sig(f), False if bad else None if und or not res else True, (bad or und or [""])[0])
    c.count("argument classes", len(vals))


def value(t, a, v):
    if t == a:
        return v
    if t.op == "lit" and isinstance(t.a[0], (int, float)):
        return t.a[0]
    if t.op == "ext" and last(t.a[0]) in BOUNDS:
        xs = [value(one(x) if isinstance(x, frozenset) and len(x) == 1 else x, a, v) if isinstance(x, (T, frozenset)) and not (isinstance(x, frozenset) and len(x) != 1) else None for x in extargs(t)]
        if None not in xs and xs:
            return max(xs) if "max" in last(t.a[0]) else min(xs)
    return None


BOUNDS = ("max", "min", "fmax", "fmin")


def extargs(t):
    return t.a[1] if len(t.a) == 2 and isinstance(t.a[1], tuple) else t.a[1:]


def truth(t, a, v):
    """Is the condition true when the argument is v?"""
    if t.op in ("lt", "le", "eq") and len(t.a) == 2:
        x, y = (value(z, a, v) for z in t.a)
        if x is None or y is None:
            return None
        return {"lt": x < y, "le": x <= y, "eq": x == y}[t.op]
    if t.op == "isnan" or t.op == "ext" and last(t.a[0]) == "isnan":
        return v != v if a in t.a else None
    if t.op == "ext" and last(t.a[0]) in ("isfinite", "isinf"):
        return (last(t.a[0]) == "isfinite") == (v == v)
    if t == a:
        return bool(v)
    return None


def others(c, f, w, l, inv, what):
    bad = [inv[k] for k, v in w.store.items() if k in inv and k != l and v != S(k)]
    c.ob(O, where(f), what, not bad, "also changes " + ", ".join(bad))


def default(c, f, w, l, n, initial, what):
    v = w.store.get(l)
    want = initial.get(n)
    if want is None:
        c.ob(D, where(f), what, False if v is None else None, "%s is %s" % (n, show(v) if v else "left as it was"))
        return
    c.ob(D, where(f), what, v == want if v is None or all(x.op in ("lit", "g") for x in v) else None,
         "%s becomes %s, initially %s" % (n, show(v) if v else "what it was", show(want)))


def init(c, p, l):
    """The initial value of a static."""
    if l.op != "g":
        return None
    for k, v in p.vars.items():
        if (v.get("q") or v.get("n") or k) == l.a[0] or k == l.a[0]:
            e = v.get("i") or v.get("init")
            if e is None:
                continue
            I = Interp(p, Setting())
            f = {"q": "static", "id": "static", "params": [], "body": {"k": "block", "s": [{"k": "return", "l": 0, "e": e}]}, "file": v.get("file", "maq.cpp"), "line": v.get("line", 0), "k": "fn", "name": "static"}
            outs = I.run(f)
            vs = [w.ret for w, o in outs if w.ret]
            return vs[0] if vs else None
    return None
