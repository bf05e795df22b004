"""C22: an integration covers its range once, each part to the tolerance set."""
from ..formula import *
from . import c10

RULE = ("The integrator is interpreted path by path with its loops iterated to a fixed point. What it keeps for a part of the range is "
        "compared, as a normal form, with the part's two ends and middle, the transformed integrand f(1/t - 1)/t^2 there, and Simpson's "
        "rule for it; assuming that of the part taken from the store, each way through the loop must either add that part's integral (of "
        "its halves, corrected by a fifteenth of the difference) after a test of the difference against the tolerance, or keep exactly "
        "its two halves. A result is returned as successful only when no part is left. For each search, the range returned is compared "
        "with the last point looked at, by induction over the loops.")

PART = "what is kept for a part of the range belongs to it"
HALF = "a part is replaced by its two halves, or its integral is added"
TOL = "an integral is added only within the tolerance set"
ALL = "a successful result covers the whole range"
MID = "the range searched for has the point found in its middle"
END = "the range is narrowed only where the ends give nothing"
NAMES = ("a", "b", "c", "fa", "fb", "fc", "r")
A0 = mk("param", "a0")
AL, BE = E(mk("param", "alpha")), E(mk("param", "beta"))


def F(x):
    return E(mk("icall", A0, S(term(x))))


def G(t):
    return F(1 / t - 1) / (t * t)


def simpson(a, b):
    return (b - a) / 6 * (G(a) + 4 * G((a + b) / 2) + G(b))


def part(a, b, ga=None):
    g = ga or G(a)
    return {"a": a, "b": b, "c": (a + b) / 2, "fa": g, "fb": G(b), "fc": G((a + b) / 2),
            "r": (b - a) / 6 * (g + 4 * G((a + b) / 2) + G(b))}


class Maq(Client):
    """What is kept and what is added, per iteration of the refinement."""
    merge = "paths"
    max_worlds = 4000

    def __init__(self, main):
        self.main, self.I = main, None
        self.first, self.rounds, self.pushing = [], [], set()

    policy = c10.Acc.policy

    def on(self, w, ev):
        if ev.k == "cmod" and ev.d.get("n") in ("push", "push_back", "emplace", "emplace_back", "push_front"):
            el = ev.d.get("elem")
            if not el or not all(len(x) == 1 and next(iter(x)).op == "rec" for x in [frozenset(el)]):
                el = None
            self.pushing |= {x.split(".")[0] for x in self.I.sites}
            w = w.copy()
            w.dom = (w.dom or ()) + ((self.I.sites, ev.line, next(iter(el)) if el else None),)
            return [w]
        if ev.k == "loop":
            top = [(l, r) for at, l, r in w.dom or () if not at]
            if top and not self.I.sites:
                if not self.I.mute:
                    self.first.append((tuple(top), w.facts))
                w = w.copy()
                w.dom = ()
            return [w]
        if ev.k == "endloop" and self.I.sites and str(self.I.uid(ev.d["node"])) in self.pushing:
            w = w.copy()
            w.dom = (w.dom or ()) + ((self.I.sites, ev.line, None),)
            return [w]
        if ev.k == "iterend":
            at = self.I.sites
            own = tuple((l, r if y == at else None) for y, l, r in w.dom or () if y[:len(at)] == at)
            if not self.I.mute:
                self.rounds.append((ev.d.get("site"), own, w.facts, dict(w.store), ev.line))
            w = w.copy()
            # what a loop within a round keeps is not followed
            w.dom = tuple(x for x in w.dom or () if x[0][:len(at)] != at)
            if own and at[:-1]:
                w.dom += ((at, own[0][0], None),)
            return [w]
        return None


def sub_rule(p, roles):
    """the fields of the part taken from the store, as functions of its ends"""
    want = part(AL, BE)

    def rule(t, n):
        if t.op == "f" and p is not None and t.a[0] is p and t.a[1] in roles:
            return term(want[roles[t.a[1]]])
        return None
    return rule


def rec(t):
    return {k: one(v) for k, v in t.a[0] if isinstance(k, str) and len(v) == 1}


def norm(p=None, roles=()):
    return poly.Norm(sub_rule(p, roles))


def differ(n, got, want):
    try:
        return poly.same(n, n.nf(term(got)), n.nf(term(want)))
    except Undecided:
        return None


def impossible(facts, n=None):
    """is the middle of a part at infinity, or the end of the range at zero?"""
    for t, b in facts:
        if t.op == "eq" and b and any(x.op == "lit" and x.a[0] == 0 for x in t.a):
            o = t.a[1] if t.a[0].op == "lit" else t.a[0]
            if o.op == "bin" or o.op == "f" and o.a[1] != "a":
                if not any(y.op in ("size", "icall", "count") for y in subterms(o)):
                    return True
    return False


def run(thorough=False):
    c = Check("C22", RULE, thorough)
    m = the_model()
    p = m.p
    fs = [f for f in p.fn(c10.NS + "MAQ") if "body" in f]
    if not fs:
        c.broken("the integrator was not found")
    for f in fs:
        guarded(c, PART, where(f), sig(f), lambda: integrator(c, p, f))
    for f in p.funcs.values():
        if "body" in f and f["file"].endswith("maq.cpp") and c10.issearch(f) and f["name"] != "MAQ" and not f.get("islambda"):
            guarded(c, MID, where(f), sig(f), lambda: search(c, p, f))
    c.need(PART, 1)
    c.need(MID, 3)
    return c.finish()


def settle(c, rule, f, what, res):
    bad, und = [d for o, d in res if o is False], [d for o, d in res if o is None]
    c.ob(rule, where(f), what, False if bad else None if und or not res else True, (bad or und or ["nothing of the kind was found"])[0])


def integrator(c, p, f):
    cl = Maq(f)
    I = cl.I = Interp(p, cl)
    outs = [(w, o) for w, o in I.run(f, args=[S(A0)] + [S(mk("param", "a%d" % i)) for i in range(1, len(f["params"]))]) if o == "return"]
    c.functions |= I.inlined | {f["id"]}
    c.count("paths", len(outs))
    # ---- the first part: from the search's range
    roles, res = {}, []
    for dom, facts in cl.first:
        for line, r in dom:
            if r is None:
                res.append((None, "line %s: what is kept was not understood" % line))
                continue
            it = rec(r)
            srch = {y for v in it.values() for y in subterms(v) if y.op == "f" and y.a[0].op == "m" and c10.searchname(y.a[0])}
            ends = {y.a[1]: y for y in srch}
            if not {"a", "b"} <= set(ends) or len({y.a[0] for y in srch}) != 1:
                res.append((None, "line %s: not the range of a search" % line))
                continue
            a, b = E(ends["a"]), E(ends["b"])
            if impossible(facts):
                continue
            atinf = any(t.op == "eq" and v and ends["a"] in t.a for t, v in facts)
            want = part(a, b, F(mk("inf")) if atinf else None)
            n = norm()
            named = set(it) <= set(NAMES)
            for k, v in it.items():
                role = k if named else roles.get(k) or next((q for q in NAMES if differ(n, v, want[q])), None)
                if role is None:
                    res.append((None, "line %s: %s was not recognised" % (line, k)))
                    continue
                roles[k] = role
                ok = differ(n, v, want[role])
                res.append((ok, "line %s: %s of the first part is %s" % (line, k, n.show(n.nf(v))[:160])))
    settle(c, PART, f, "the first part", res)
    # ---- each round
    sites = {}
    for site, dom, facts, store, line in cl.rounds:
        sites.setdefault(site, []).append((dom, facts, store, line))
    acc = set()
    for w, _ in outs:
        r = next(iter(w.ret)) if w.ret and len(w.ret) == 1 else None
        it = dict(r.a[0]) if r is not None and r.op == "rec" else {}
        for v in it.get("integral", ()):
            if v.op == "phi" and v.a[0] in sites and I.phi_backs.get(v):
                acc.add(v)
    accs = sorted((v for v in acc if any(d for d, _, _, _ in sites[v.a[0]])), key=show)
    if not accs or not roles:
        c.ob(HALF, where(f), sig(f), None, "the sum was not identified")
        return
    split, added, tol = [], [], []
    c.count("rounds", sum(len(sites[a.a[0]]) for a in accs))
    same = set()
    for acc, (dom, facts, store, line) in [(a, r) for a in accs for r in sites[a.a[0]]]:
        new = one_or_none(store.get(acc.a[1]) or frozenset())
        recs = [r for _, r in dom]
        if new is None or any(r is None for r in recs):
            split.append((None, "what is kept or added was not understood"))
            continue
        base = {y.a[0] for t in [new] + recs for y in subterms(t) if y.op == "f" and y.a[1] in roles and y.a[0].op in ("phi", "idx", "m", "ext")
                and not (y.a[0].op == "m" and c10.searchname(y.a[0]))}
        if new is acc and not recs:
            split.append((False, "a part is dropped: its integral is not added, and nothing is kept of it"))
            continue
        if len(base) == 1 and new is not None:
            # the same again, after another search
            sw, memo = {acc: term(AL), next(iter(base)): term(BE)}, {}
            key = (tuple(put(t, sw, memo) for t in [new] + recs),
                   frozenset((put(t, sw, memo), b) for t, b in facts
                             if t.op in ("lt", "le") and any(c10.setting(y, "tolerance") for y in subterms(t))), impossible(facts))
            if key in same:
                continue
            same.add(key)
        if len(base) != 1:
            split.append((None, "the part taken was not identified"))
            continue
        P = next(iter(base))
        if impossible(facts):
            continue
        n = norm(P, roles)
        mid = (AL + BE) / 2
        left, right = part(AL, mid), part(mid, BE)
        if recs:
            if new is not acc:
                d = differ(n, new, E(acc))
                split.append((None if d is None else d, "a part is kept and also added"))
            got = [rec(r) for r in recs]
            best = None
            for order in ((left, right), (right, left)):
                if len(got) == 2:
                    o = [(differ(n, g[k], want[roles[k]]), "line %s: %s of a half is %s" % (dom[i][0], k, n.show(n.nf(g[k]))[:160]))
                         for i, (g, want) in enumerate(zip(got, order)) for k in g if k in roles]
                    if best is None or sum(x is True for x, _ in o) > sum(x is True for x, _ in best):
                        best = o
            if best is None:
                split.append((False, "a part is replaced by %d part(s)" % len(got)))
            else:
                split += best
            continue
        q1 = simpson(AL, BE)
        q2 = simpson(AL, mid) + simpson(mid, BE)
        ok = differ(n, new, E(acc) + q2 + (q2 - q1) / 15)
        added.append((ok, "the integral becomes %s" % n.show(n.nf(new))[:200]))
        tol.append(tolerance(n, facts, q2 - q1, q2, E(acc)))
    settle(c, HALF, f, "what is kept of a part", split)
    settle(c, HALF, f, "what is added for a part", added)
    settle(c, TOL, f, sig(f), tol)
    # ---- the end
    done = []
    for w, _ in outs:
        r = next(iter(w.ret)) if w.ret and len(w.ret) == 1 else None
        it = dict(r.a[0]) if r is not None and r.op == "rec" else {}
        if not any(a in it.get("integral", ()) for a in accs):
            continue
        suc = c10.truthy(frozenset(it.get("successful", ())), w)
        if suc is False:
            continue
        fx = Facts(w.facts)
        left = [fx.positive(t) for t in {y for t, _ in w.facts for y in subterms(t) if y.op == "size"}] + \
               [not b for t, b in w.facts if t.op == "empty"]
        done.append((True if left and all(x is False for x in left) else False if not any(x is False for x in left) else None,
                     "a sum is returned as successful though parts may be left"))
    settle(c, ALL, f, sig(f), done)


def tolerance(n, facts, err, q2, acc):
    """(ok, text): was the difference compared with the tolerance?"""
    seen = []
    for t, b in facts:
        if t.op not in ("lt", "le") or len(t.a) != 2:
            continue
        x, y = t.a if b else t.a[::-1]      # x <= y holds
        tl = [s for s in subterms(t) if c10.setting(s, "tolerance")]
        if not tl:
            continue
        tol = E(tl[0])
        try:
            l, r = n.nf(x), n.nf(y)
        except Undecided:
            seen.append((None, "the comparison was not understood"))
            continue
        lok = poly.same(n, l, n.nf(term(absv(err))))
        rok = [poly.same(n, r, n.nf(term(absv(tol * z)))) for z in (q2, acc)] + [poly.same(n, r, n.nf(term(tol * absv(z)))) for z in (q2, acc)]
        if lok and any(rok):
            return True, ""
        odd = any(s.op == "ext" and str(s.a[0]).split("::")[-1] in ("max", "min", "fmax", "fmin") for s in subterms(t)) or \
            not any(c10.setting(s, "tolerance") for s in subterms(y)) and any(c10.setting(s, "tolerance") for s in subterms(x)) and b
        seen.append((None if odd else False, "the test is %s <= %s" % (n.show(l)[:100], n.show(r)[:100])))
    if not seen:
        return False, "an integral is added without comparing anything with the tolerance"
    return seen[0] if all(o is False for o, _ in seen) else (None, seen[0][1])


# ------------------------------------------------------------------ searches
LASTX, LASTF = mk("v", -1, "ghost", "point"), mk("v", -2, "ghost", "value")
EPS = 2.220446049250313e-16


class Look(c10.Search):
    def on(self, w, ev):
        if ev.k == "icall":
            args = ev.d.get("args")
            w = w.copy()
            w.store[LASTX] = frozenset(args[0]) if args else frozenset()
            w.store[LASTF] = S(ev.d["val"]) if isinstance(ev.d.get("val"), T) else frozenset(ev.d.get("val") or ())
            if not any(y.op == "phi" for v in w.store[LASTX] for y in subterms(v)) and len(w.dom or ()) < 2:
                w.dom = (w.dom or ()) + (one_or_none(w.store[LASTF]),)
            return [w]
        return None


def low(facts, v):
    """is the value known to be next to nothing?"""
    for t, b in facts:
        if t.op in ("lt", "le") and len(t.a) == 2:
            if b and t.a[0] is v and small(t.a[1]) or not b and t.a[1] is v and small(t.a[0]):
                return True
        if t.op == "eq" and b and v in t.a and any(x.op == "lit" and x.a[0] == 0 for x in t.a):
            return True
    return False


def high(facts, v):
    for t, b in facts:
        if t.op in ("lt", "le") and len(t.a) == 2:
            if b and t.a[1] is v and small(t.a[0]) or not b and t.a[0] is v and small(t.a[1]):
                return True
    return False


def small(x):
    return x.op == "lit" and isinstance(x.a[0], (int, float)) and x.a[0] <= 1e-12 or "epsilon" in show(x)


def search(c, p, f):
    cl = Look(f)
    I = cl.I = Interp(p, cl)
    outs = [w for w, o in I.run(f, args=[S(mk("param", "a%d" % i)) for i in range(len(f["params"]))]) if o == "return"]
    c.functions |= I.inlined | {f["id"]}
    mids, ends = [], []
    for w in outs:
        r = next(iter(w.ret)) if w.ret and len(w.ret) == 1 else None
        it = rec(r) if r is not None and r.op == "rec" else {}
        a, b = it.get("a"), it.get("b")
        if a is None or b is None:
            mids.append((None, "the result was not understood"))
            continue
        early = list(w.dom or ())
        n = poly.Norm()
        full = differ(n, a, E(mk("lit", 0))) is True and differ(n, b, E(mk("lit", 1))) is True
        if not full:
            for v in early:
                if v is None or not low(w.facts, v):
                    ends.append((None if v is None else False, "%s is returned though %s may be more than nothing" % (
                        "nothing found" if a is NAN else "a narrower range", show(v) if v is not None else "?")))
                else:
                    ends.append((True, ""))
            if len(early) < 2:
                ends.append((None, "the ends are not looked at"))
        else:
            ends.append((True, ""))
        if a is NAN:
            continue
        x, v = one_or_none(w.store.get(LASTX) or frozenset()), one_or_none(w.store.get(LASTF) or frozenset())
        if x is None or v is None:
            mids.append((None, "the last point looked at was not followed"))
            continue
        mids.append(Mid(I).holds((a, b, x, v), w.facts))
    settle(c, MID, f, sig(f), mids)
    settle(c, END, f, sig(f), ends)


class Mid:
    """a + b = 2t for the last point t = 1/(x + 1), or there was nothing there: by induction over the loops"""

    def __init__(self, I):
        self.I, self.done, self.left = I, set(), 4000
        self.after = {}     # loop -> loops it lies in, or comes after
        for y, vs in I.phi_entry.items():
            for v in vs:
                self.after.setdefault(y.a[0], set()).update(z.a[0] for z in subterms(v) if z.op == "phi" and z.a[0] != y.a[0])

    def inside(self, n, a, b, x):
        """a range around i/D reaches 1/D to each side, and i is at least 1"""
        if x.op == "inf":
            return True, ""
        for d in {y.a[2] for t in (a, b) for y in subterms(t) if y.op == "bin" and y.a[0] == "/" and y.a[2].op != "lit"}:
            try:
                k = n.isconst(n.nf(term((E(b) - E(a)) / 2 * E(d))))
            except Undecided:
                continue
            if k is None:
                continue
            if k > 1 or k <= 0:
                return False, "the range is from %s to %s: beyond its ends" % (show(a)[:80], show(b)[:80])
            ph = {y for y in subterms(a) if y.op == "phi"} - {y for y in subterms(d) if y.op == "phi"}
            for y in ph:
                lows = [linear(e)[1] for e in self.I.phi_entry.get(y, ())]
                if lows and min(lows) < k:
                    return False, "the points looked at begin at %s/n: the range is from %s to %s" % (min(lows), show(a)[:60], show(b)[:60])
        return True, ""

    def holds(self, q, facts, depth=0):
        a, b, x, v = q
        if low(facts, v):
            return True, ""
        if q in self.done:
            return True, ""
        self.left -= 1
        if self.left < 0:
            return None, "too many ways round the loops"
        n = poly.Norm()
        if x.op == "inf":
            # at the end of the range, where t is zero
            ts = [z for t, e in facts if t.op == "eq" and e and any(y.op == "lit" and y.a[0] == 0 for y in t.a) for z in t.a if z.op != "lit"]
            ok = True if any(differ(n, E(a) + E(b), 2 * E(z)) or nothere(n, z) for z in ts) else None
        else:
            ok = differ(n, E(a) + E(b), 2 / (E(x) + 1))
        if ok:
            return self.inside(n, a, b, x)
        sites = [y.a[0] for t in q for y in subterms(t) if y.op == "phi"]
        if not sites or depth > 6:
            return ok, "the range is from %s to %s, after the point %s" % (show(a)[:80], show(b)[:80], show(x)[:80])
        self.done = self.done | {q}
        worst = (True, "")
        # the loop no other one among these comes after
        site = next((s for s in sites if not any(s in self.after.get(z, ()) for z in sites if z != s)), sites[0])
        phis = {y for t in q for y in subterms(t) if y.op == "phi" and y.a[0] == site}
        ways = []
        en = {}
        for y in phis:
            e = one_or_none(self.I.phi_entry.get(y) or frozenset())
            if e is None:
                return None, "what holds before a loop was not followed"
            en[y] = e
        ways.append((en, facts0(facts, site)))
        backs = {y: self.I.phi_backs.get(y) or [] for y in phis}
        k = {len(v) for v in backs.values()}
        if len(k) != 1:
            return None, "what a loop changes was not followed"
        for i in range(k.pop()):
            s, fs = {}, None
            for y in phis:
                val, fa = backs[y][i]
                val = one_or_none(val)
                if val is None:
                    return None, "what a loop changes was not followed"
                s[y], fs = val, fa
            ways.append((s, fs))
        for s, fs in ways:
            o, d = self.holds(tuple(put(t, s) for t in q), fs, depth + 1)
            if o is False:
                return o, d
            if o is not True and worst[0] is True:
                worst = (o, d)
        return worst


def nothere(n, z):
    """a number which is not zero"""
    try:
        k = n.isconst(n.nf(z))
    except Undecided:
        return False
    return k is not None and k != 0


def facts0(facts, site):
    return frozenset((t, b) for t, b in facts if not any(y.op == "phi" and y.a[0] == site for y in subterms(t)))


def put(t, s, memo=None):
    """t with some of its terms replaced"""
    if t in s:
        return s[t]
    memo = {} if memo is None else memo
    r = memo.get(t)
    if r is not None:
        return r

    def g(x):
        if isinstance(x, T):
            return put(x, s, memo)
        if isinstance(x, frozenset):
            return frozenset(put(y, s, memo) for y in x)
        if isinstance(x, tuple):
            return tuple(g(y) for y in x)
        return x
    r = memo[t] = mk(t.op, *[g(x) for x in t.a])
    return r
