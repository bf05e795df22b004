"""C09: a calculation whose integration fails gives NaN, not a number."""
from ..formula import *
from . import c10

RULE = ("Every function of the library that integrates numerically is interpreted abstractly, path by path. On each path on "
        "which an integration reports failure, the value it returns must be undefined: NaN itself, or calculated from the "
        "failed integral (which is NaN). A number on such a path is indistinguishable from a result. On each path of the "
        "integrator which has found the integrand undefined, or the evaluations used up, it reports failure and NaN.")

OWN = "the integrator reports a failure as one, with an undefined value"
R = "a failed integration gives an undefined result"


class V(Vocab):
    """Follows what belongs to the query itself: lambdas, free functions, and
    the members of its class that are not queries themselves."""

    def __init__(self):
        super().__init__(())

    def policy(self, e, fn, obj):
        if e.get("n") == "MAQ":
            return "inline"
        if fn is None or "body" not in fn:
            return "opaque"
        if fn.get("islambda") or fn["name"] in FROM or fn.get("k") == "ctor" and fn.get("rec") == DIST:
            return "inline"
        if not fn.get("rec"):
            return "inline"
        if fn["rec"].startswith("SLAT::Replaceable") or "Caching::" in fn["rec"]:
            return "opaque"
        mine = obj and all(x.op == "obj" for x in obj)
        if mine and fn.get("access") != 0:
            return "inline"
        return "opaque"


def queries(m):
    """(name, function, outcomes, interpreter) of every query that integrates."""
    p = m.p
    for cls in sorted(p.records):
        if not cls.startswith("SLAT::") or "<" in cls:
            continue
        inf = model.info(m, cls)
        for field in sorted(inf.cacheclo):
            try:
                for f, outs, I in run_cache(m, cls, field, V()):
                    yield "%s::%s" % (short(cls), field), f, outs, I
            except TooBig as ex:
                yield "%s::%s" % (short(cls), field), None, str(ex), None
    for f in sorted(p.funcs.values(), key=lambda f: (f["q"], f.get("line", 0))):
        if "body" not in f or f.get("islambda") or f.get("implicit") or f.get("defaulted") or f["file"].endswith("_test.cpp") or f["name"] == "MAQ" \
                or f["k"] in ("ctor", "dtor") or f.get("rec") and f.get("access") != 0 or "<" in f["q"] or not f["q"].startswith("SLAT::"):
            continue
        if not reaches(p, f, set()):
            continue
        try:
            outs, I = run_fn(p, f, V())
        except TooBig as ex:
            yield short(f["q"]), f, str(ex), None
            continue
        yield short(f["q"]), f, outs, I


def reaches(p, f, seen):
    """Does the function integrate, itself or through what V follows?"""
    if f["id"] in seen or "body" not in f:
        return False
    seen.add(f["id"])

    def walk(s):
        if isinstance(s, list):
            return any(walk(x) for x in s)
        if not isinstance(s, dict):
            return False
        if s.get("k") == "call":
            if s.get("n") == "MAQ":
                return True
            g = p.funcs.get(s.get("f"))
            if g is not None and (not g.get("rec") or g.get("access") != 0 and g["rec"] == f.get("rec")) and reaches(p, g, seen):
                return True
        if s.get("k") == "lambda" and s.get("f") in p.funcs and reaches(p, p.funcs[s["f"]], seen):
            return True
        return any(walk(v) for v in s.values() if isinstance(v, (dict, list)))
    return walk(f["body"])


def known_zero(facts, sites):
    """A successful integral is known to be zero on this path."""
    ok = {t.a[0] for t, v in facts if t.op == "isuccess" and v} - sites
    for t, v in facts:
        if t.op == "eq" and v and mk("lit", 0) in t.a:
            if any(x.op == "integral" and x.a[0] in ok for y in t.a for x in subterms(y)) and \
                    not any(x.op == "integral" and x.a[0] in sites or x == NAN for y in t.a for x in subterms(y)):
                return True
    return False


def undefined(t, sites, done=frozenset()):
    """True: NaN for sure; False: a number for sure; None: not known."""
    t = one(t) if isinstance(t, frozenset) and len(t) == 1 else t
    if isinstance(t, frozenset):
        rs = [undefined(x, sites, done) for x in t]
        return False if False in rs else None if None in rs else True
    if t == NAN:
        return True
    if t.op == "integral" and t.a[0] in sites:
        return True
    if t.op == "lit":
        return False
    if t.op in ("bin", "un", "ext"):
        a = [x for x in (t.a[1:] if t.op != "ext" else (t.a[1] if len(t.a) == 2 and isinstance(t.a[1], tuple) else t.a[1:])) if isinstance(x, (T, frozenset))]
        rs = [undefined(x, sites, done) for x in a]
        if t.op == "ext" and last(t.a[0]) in ("max", "min", "fmax", "fmin", "isnan"):
            return None
        if True in rs:
            return True
        return False if rs and all(r is False for r in rs) else None
    if t.op == "m" and (last(t.a[0]) in FROM or last(t.a[0]) in SCALE or last(t.a[0]) in STAT):
        rs = [undefined(x, sites, done) for x in t.a[1:]]
        if True in rs:
            return True
        return False if rs and all(r is False for r in rs) else None
    if t.op == "rec":
        it = dict(t.a[0])
        vs = [x for x in it.values() if isinstance(x, frozenset)]
        rs = [undefined(x, sites, done) for x in vs]
        return True if True in rs else False if rs and all(r is False for r in rs) else None
    if t.op == "integral":
        # one that succeeded is a number, and an undefined integrand cannot succeed
        r = undefined(t.a[1], sites, done)
        return False if r is not True and t.a[0] in done else r
    return None


def integrator(c, p, f):
    """The integrator itself: a failure is reported as one."""
    cl = c10.Acc(p, f)
    I = cl.I = Interp(p, cl)
    w0 = World()
    w0.dom = ((), ())
    outs = [w for w, o in I.run(f, args=[S(mk("param", "a0"))] + [S(mk("param", "a%d" % i)) for i in range(1, len(f["params"]))], world=w0) if o == "return"]
    c.functions |= I.inlined | {f["id"]}
    n, bad, und = 0, None, None
    for w in outs:
        why = None
        for t, v in w.facts:
            if v and t.op in ("isnan", "ext") and (t.op == "isnan" or last(t.a[0]) == "isnan") and any(y.op == "icall" for y in subterms(t)):
                why = "the integrand is undefined"
            elif t.op in ("lt", "le") and any(y.op == "phi" for y in subterms(t)):
                a, b = t.a
                if c10.setting(a, "integration_eval_limit") and v or c10.setting(b, "integration_eval_limit") and not v:
                    why = "the evaluations are used up"
        r = next(iter(w.ret)) if w.ret and len(w.ret) == 1 else None
        it = dict(r.a[0]) if r is not None and r.op == "rec" else {}
        if why is None:
            continue
        n += 1
        if not {"integral", "successful"} <= set(it):
            und = "the result is not understood"
            continue
        suc, val = frozenset(it["successful"]), frozenset(it["integral"])
        b = c10.truthy(suc, w)
        if b is None:
            und = "successful is %s" % show(suc)
        elif b:
            bad = "reports success though %s" % why
        elif val != S(NAN) and not all(x == NAN or Facts(w.facts).get(mk("isnan", x)) for x in val):
            if all(x.op in ("lit", "phi") for x in val):
                bad = "the value is %s though %s" % (show(val)[:80], why)
            else:
                und = "the value is %s" % show(val)[:80]
    c.count("failing_paths_of_the_integrator", n)
    c.ob(OWN, where(f), sig(f), False if bad else None if und or not n else True, bad or und or "no failing path was found", key="integrator")


def run(thorough=False):
    c = Check("C09", RULE, thorough)
    m = the_model()
    p = m.p
    for f in p.fn(c10.NS + "MAQ"):
        if "body" in f:
            guarded(c, OWN, where(f), sig(f), lambda: integrator(c, p, f))
    for name, f, outs, I in queries(m):
        if I is None:
            c.ob(R, where(f) if f else "", name, None, outs)
            continue
        c.functions |= I.inlined | {f["id"]}
        paths = bad = und = 0
        for w, o in outs:
            if o != "return":
                continue
            sites = {t.a[0] for t, v in w.facts if t.op == "isuccess" and not v}
            cellsat = []
            for r in w.ret or ():
                # a list filled element by element: the iterations' own facts
                if r.op == "rec" and any(isinstance(k, T) and any(y.op == "phi" for y in subterms(k)) for k, _ in r.a[0]):
                    for val, fs in elements(I, r, w.facts, ())[2] or ():
                        s2 = {t.a[0] for t, b in fs if t.op == "isuccess" and not b}
                        if s2:
                            cellsat.append((val, s2, {t.a[0] for t, b in fs if t.op == "isuccess" and b} - s2))
            if sites:
                if known_zero(w.facts, sites):
                    continue        # nothing to undo: what was integrated successfully is zero
                cellsat += [(w.ret or frozenset(), sites, {t.a[0] for t, v in w.facts if t.op == "isuccess" and v} - sites)]
            for val, ss, done in cellsat:
                paths += 1
                u = undefined(val, ss, done)
                if u is False:
                    bad = "returns %s when the integration fails" % "|".join(show(x) for x in val)[:120]
                elif u is None:
                    und = "returns %s" % "|".join(show(x) for x in val)[:160]
        c.count("failure_paths", paths)
        if not paths:
            continue
        c.ob(R, where(f), name, False if bad else None if und else True, bad or und or "", key="%s gives a number" % name)
    c.need(R, 3)
    return c.finish()
