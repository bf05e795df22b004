"""C10: every integration is accounted for, once, and its budgets are kept."""
from ..formula import *

RULE = ("The integrator is interpreted abstractly, path by path, with its loops iterated to a fixed point; the state counts the "
        "updates of each statistic. Every path to a return counts one call and exactly one outcome, the outcome agrees with "
        "the result returned (a failure is NaN and not successful), the totals grow once by the evaluations the search and "
        "the result report, and every update is inside one and the same critical section. For each search, the number of "
        "calls of the integrand is followed as a ghost variable: it must be, by induction over the loops, the number of "
        "evaluations returned, and each call after the first two must be on a path which has tested the number made so "
        "far against the limit. In the refinement loop the counter must grow each time round and be tested first.")

OUT = "each integration counts one call and one outcome"
RES = "the outcome counted is the one returned"
TOT = "the totals grow once by the evaluations reported"
EXC = "statistics are updated one thread at a time"
EV = "a search reports the evaluations it made"
LIM = "a search tests its limit before each evaluation"
REF = "refinement stops when the evaluations allowed are used"
MET = "the method chosen is the one which searches"
RST = "resetting clears every counter"
NS = "SLAT::Integration::"
OUTCOMES = ("successes", "number_integration_fails", "nans", "number_search_fails")
METHODS = {"BINARY_SUBDIVISION": "binary_subdivision", "REVERSE_BINARY_SUBDIVISION": "reverse_binary_subdivision",
           "LOW_FIRST_REVERSE_BINARY_SUBDIVISION": "low_first_reverse_binary_subdivision", "SCATTERED": "scattered_search",
           "DIRECTED": "directed_search"}
GHOST = mk("v", -1, "ghost", "calls")


def isstats(p, t):
    """field name, for a member of the statistics"""
    if t.op == "f" and t.a[0].op == "g":
        v = next((v for k, v in p.vars.items() if v.get("q") == t.a[0].a[0] or v.get("n") == t.a[0].a[0] or k == t.a[0].a[0]), None)
        if v is None or "IntegrationStats" in str(v.get("t")):
            return t.a[1] if v is not None or "stats" in str(t.a[0].a[0]) else None
    return None


def issearch(fn):
    return any("function<" in x["t"] for x in fn["params"]) and not any(x in (fn.get("ret") or "") for x in ("double", "void", "bool", "float"))


class Acc(Client):
    """Updates of the statistics along a path: (field, amount) pairs, saturating."""
    merge = "paths"
    max_worlds = 4000

    def __init__(self, p, main):
        self.p, self.main = p, main
        self.writes = {}
        self.calls = []
        self.I = None

    def policy(self, e, fn, obj):
        if fn is None or "body" not in fn:
            return "opaque"
        if fn["file"] not in self.main["file"] and not fn["file"].endswith(("maq.h", "maq.cpp")):
            return "opaque"
        return "opaque" if issearch(fn) else "inline"

    def on(self, w, ev):
        up, crit = w.dom or ((), ())
        if ev.k == "omp":
            d = str(ev.d.get("d") or "")
            if "critical" in d or "atomic" in d:
                w = w.copy()
                w.dom = (up, crit + (("critical" if "critical" in d else "atomic", ev.d.get("name") or ""),))
                return [w]
        elif ev.k == "endomp":
            d = str(ev.d.get("d") or "")
            if ("critical" in d or "atomic" in d) and crit:
                w = w.copy()
                w.dom = (up, crit[:-1])
                return [w]
        elif ev.k == "write":
            n = None
            for l in ev.d["locs"]:
                n = isstats(self.p, l) or n
            if n is None:
                return None
            vs = ev.d["vals"]
            if not self.I.mute:
                self.writes.setdefault(n, {}).setdefault(crit[:1], set()).add(ev.at() if callable(ev.at) else ev.at)
            amount = "?"
            if len(vs) == 1 and len(ev.d["locs"]) == 1:
                v, l = next(iter(vs)), next(iter(ev.d["locs"]))
                amount = increment(v, l, w)
            w = w.copy()
            w.dom = (tuple(sorted(up + ((n, amount),), key=repr))[:12], crit)
            return [w]
        elif ev.k == "icall":
            if not self.I.mute:
                self.calls.append((ev.line, w.facts, self.I.cursite, dict(w.store)))
        return None


def increment(v, l, w):
    """The amount added to what is stored at l."""
    if v.op == "bin" and v.a[0] == "+":
        for a, b in (v.a[1:], v.a[:0:-1]):
            if a == l or sumof(a, l):
                return b if a == l else "?"
    return "?"


def sumof(a, l):
    return False


def run(thorough=False):
    c = Check("C10", RULE, thorough)
    m = the_model()
    p = m.p
    fs = [f for f in p.fn(NS + "MAQ") if "body" in f]
    if not fs:
        c.broken("the integrator was not found")
    for f in fs:
        guarded(c, OUT, where(f), sig(f), lambda: integrator(c, p, f))
    for f in p.funcs.values():
        if "body" in f and f["file"].endswith("maq.cpp") and issearch(f) and f["name"] != "MAQ" and not f.get("islambda"):
            guarded(c, EV, where(f), sig(f), lambda: search(c, p, f))
    reset(c, p)
    c.need(OUT, 1)
    c.need(EV, 3)
    return c.finish()


def integrator(c, p, f):
    cl = Acc(p, f)
    I = cl.I = Interp(p, cl)
    w0 = World()
    w0.dom = ((), ())
    outs = [(w, o) for w, o in I.run(f, args=[S(mk("param", "a0"))] + [S(mk("param", "a%d" % i)) for i in range(1, len(f["params"]))], world=w0) if o == "return"]
    c.functions |= I.inlined | {f["id"]}
    c.count("paths", len(outs))
    res = {k: [] for k in (OUT, RES, TOT, MET)}
    ml = {k["v"]: k["name"] for e in [p.enums.get(NS + "IntegrationSettings::METHOD_TYPE") or {}] for k in e.get("consts", [])}
    for w, _ in outs:
        up = (w.dom or ((), ()))[0]
        n = {}
        for k, a in up:
            n.setdefault(k, []).append(a)
        one1 = mk("lit", 1)
        r = next(iter(w.ret)) if w.ret and len(w.ret) == 1 else None
        it = dict(r.a[0]) if r is not None and r.op == "rec" else None
        outcome = [k for k in OUTCOMES for a in n.get(k, [])]
        unknown = any(a == "?" for k in OUTCOMES + ("calls",) for a in n.get(k, []))
        at = "%s" % (show(r)[:100] if r is not None else "?")
        if unknown:
            res[OUT].append((None, "an update is not an increment"))
        else:
            ok = len(n.get("calls", [])) == 1 and len(outcome) == 1 and all(a == one1 for k in OUTCOMES + ("calls",) for a in n.get(k, []))
            res[OUT].append((ok, "" if ok else "calls is counted %d time(s), outcome: %s, where %s is returned" % (len(n.get("calls", [])), ", ".join(outcome) or "none", at)))
        if it is None or not {"integral", "successful", "evaluations"} <= set(it):
            res[RES].append((None, "the result is " + at))
            continue
        suc, val, ev = (frozenset(it[k]) for k in ("successful", "integral", "evaluations"))
        if len(outcome) == 1:
            k = outcome[0]
            want = k in ("successes", "number_search_fails")
            b = truthy(suc, w)
            if b is None:
                res[RES].append((None, "successful is %s" % show(suc)))
            elif b != want:
                res[RES].append((False, "%s is counted but the result is %ssuccessful" % (k, "" if b else "not ")))
            elif not want and val != S(NAN):
                nan = all(x == NAN or Facts(w.facts).get(mk("isnan", x)) for x in val)
                res[RES].append((True if nan else False if all(x.op == "lit" or x.op == "phi" for x in val) else None, "a failure returns the value %s" % show(val)[:80]))
            elif k == "successes" and val == S(NAN):
                res[RES].append((False, "an undefined value is counted and returned as a success"))
            elif k == "number_search_fails" and val != S(mk("lit", 0)):
                res[RES].append((False if all(x.op in ("lit", "nan") for x in val) else None, "nothing found, but the integral is %s" % show(val)[:80]))
            else:
                res[RES].append((True, ""))
        # totals
        se, te = n.get("total_search_evals", []), n.get("total_integrations_evals", [])
        calls = {y for k, v in list(w.store.items()) for z in v for y in subterms(z) if y.op == "m" and searchname(y)} | \
                {y for t, _ in w.facts for y in subterms(t) if y.op == "m" and searchname(y)} | \
                {y for x in se + te if isinstance(x, T) for y in subterms(x) if y.op == "m" and searchname(y)}
        sfail = outcome == ["number_search_fails"]
        if calls:
            want = {mk("f", y, "evaluations") for y in calls}
            if len(se) == 1 and se[0] in want or se and len(se) != 1:
                res[TOT].append((len(se) == 1, "the search's evaluations are added %d times" % len(se)))
            else:
                res[TOT].append((False if not se or isinstance(se[0], T) and se[0].op == "lit" else None, "the search's evaluations: %s" % ", ".join(show(x) for x in se)))
        if sfail:
            res[TOT].append((not te, "a search that found nothing counts as evaluations of an integration"))
        elif len(te) != 1:
            res[TOT].append((False, "the evaluations of an integration are added %d times (%s)" % (len(te), outcome)))
        elif te[0] == "?":
            res[TOT].append((None, "not an increment"))
        else:
            res[TOT].append((S(te[0]) == ev or None if len(ev) != 1 else S(te[0]) == ev, "%s evaluations are added, %s reported" % (show(te[0])[:60], show(ev)[:60])))
        # the method
        for t, v in w.facts:
            if t.op == "eq" and v:
                for a, b in (t.a, t.a[::-1]):
                    if a.op == "lit" and a.a[0] in ml and any("method" in str(y.a).lower() for y in subterms(b)):
                        for y in calls:
                            want = METHODS.get(ml[a.a[0]])
                            got = last(y.a[0])
                            if want is None or got not in METHODS.values():
                                res[MET].append((None, "%s searches with %s" % (ml[a.a[0]], got)))
                            else:
                                res[MET].append((got == want, "%s searches with %s" % (ml[a.a[0]], got)))
        # a path taken for a method without any search
        tests = [(a.a[0], v) for t, v in w.facts if t.op == "eq" for a, b in (t.a, t.a[::-1])
                 if a.op == "lit" and a.a[0] in ml and any("method" in str(y.a).lower() for y in subterms(b))]
        if not calls and tests:
            for k in ml:
                if ml[k] in METHODS and ((k, True) in tests or not any(v for _, v in tests) and (k, False) not in tests):
                    res[MET].append((False, "%s does not search at all" % ml[k]))
    for k, l in res.items():
        if not l:
            continue
        bad, und = [d for o, d in l if o is False], [d for o, d in l if o is None]
        c.ob(k, where(f), sig(f), False if bad else None if und else True, (bad or und or [""])[0])
    for n, by in sorted(cl.writes.items()):
        kinds = sorted(by)
        ok = len(kinds) == 1 and kinds[0] != ()
        c.ob(EXC, where(f), n, ok, "updated outside any critical section (line %s)" % ", ".join(str(x) for x in sorted(by.get((), []), key=str)) if () in by else
             "updated in different critical sections: %s" % kinds)
    refinement(c, f, I, cl, p)


def searchname(y):
    return last(y.a[0]) in METHODS.values() or "search" in last(y.a[0]) or "subdivision" in last(y.a[0])


def truthy(v, w):
    b = set()
    for x in v:
        if x.op == "lit" and x.a[0] in ("true", "false", 0, 1):
            b.add(x.a[0] in ("true", 1))
        else:
            k = Facts(w.facts).get(x)
            b.add(k)
    return b.pop() if len(b) == 1 else None


def setting(t, name):
    """Is t the setting, read directly or through its accessor?"""
    return t.op == "g" and last(t.a[0]) == name or t.op == "m" and name in last(t.a[0]).lower()


def beyond(x):
    """More than the limit: another setting added to it, or a multiple of it."""
    lim = lambda y: setting(y, "integration_eval_limit")
    if x.op != "bin" or x.a[0] not in ("+", "*"):
        return False
    for a, b in (x.a[1:], x.a[:0:-1]):
        if lim(a):
            if x.a[0] == "+" and setting(b, "integration_search_limit") or b.op == "lit" and isinstance(b.a[0], (int, float)) and b.a[0] > (3 if x.a[0] == "+" else 1):
                return True
    return False


def refinement(c, f, I, cl, p):
    res = []
    for line, facts, site, st in cl.calls:
        if site is None:
            continue
        tests = []
        lax = [t for t, v in facts if t.op in ("lt", "le") for x in [t.a[1 if v else 0]] if beyond(x)]
        for t, v in facts:
            if t.op in ("lt", "le") and v is False:
                a, b = t.a      # not limit < counter
                if setting(a, "integration_eval_limit"):
                    tests.append((b, 0 if t.op == "lt" else -1))
            if t.op in ("lt", "le") and v is True:
                a, b = t.a      # counter < limit
                if setting(b, "integration_eval_limit"):
                    tests.append((a, -1 if t.op == "lt" else 0))
        other = [t for t, v in facts if t.op in ("lt", "le") and any(setting(x, "integration_search_limit") for x in t.a) and any(y.op == "phi" for y in subterms(t))]
        if not tests and lax:
            res.append((False, "line %s evaluates until %s" % (line, show(lax[0])[:100])))
            continue
        if not tests:
            res.append((False if not any(setting(y, "integration_eval_limit") for t, _ in facts for y in subterms(t)) else None,
                        "line %s evaluates without testing the limit%s" % (line, " (the search's limit is tested)" if other else "")))
            continue
        ok = None
        for x, _ in tests:
            ph = [y for y in subterms(x) if y.op == "phi" and y.a[0] == site]
            if not ph:
                ok = ok or False if not [y for y in subterms(x) if y.op == "phi"] else ok
                continue
            b = I.phi_back.get(ph[0]) or ()
            gr = [linear(y) for y in b]
            if gr and all(q == ph[0] and k >= 1 for q, k in gr):
                ok = True
            elif gr and any(q == ph[0] and k <= 0 for q, k in gr):
                ok = False
        res.append((ok, "line %s: what is tested against the limit does not grow" % line))
    bad, und = [d for o, d in res if o is False], [d for o, d in res if o is None]
    c.ob(REF, where(f), sig(f), False if bad else None if und or not res else True, (bad or und or ["no loop"])[0])


class Search(Client):
    merge = "paths"
    max_worlds = 3000

    def __init__(self, main):
        self.main, self.calls, self.I = main, [], None

    def policy(self, e, fn, obj):
        return "inline" if fn is not None and "body" in fn and fn["file"] == self.main["file"] else "opaque"

    def on(self, w, ev):
        if ev.k == "icall":
            g = w.store.get(GHOST) or S(mk("lit", 0))
            if not self.I.mute:
                self.calls.append((ev.line, g, w.facts, dict((k, v) for k, v in w.store.items() if k.op == "v")))
            w = w.copy()
            w.store[GHOST] = frozenset(plus(x, 1) for x in g)
            return [w]
        return None


def plus(t, k):
    a, n = linear(t)
    return lin(a, n + k)


class Same:
    """Are two loop terms the same number, by induction over the loop?"""

    def __init__(self, I):
        self.I, self.memo = I, {}

    def diff(self, a, b, assume=()):
        """a - b when it is the same number on every path, else None"""
        if len(a) != 1 or len(b) != 1:
            return None
        return self.d1(next(iter(a)), next(iter(b)), assume)

    def d1(self, a, b, assume):
        (x, i), (y, j) = linear(a), linear(b)
        if x == y:
            return i - j
        for (p, q, d) in assume:
            if (x, y) == (p, q):
                return i - j + d
        if x is None or y is None or x.op != "phi" or y.op != "phi" or x.a[0] != y.a[0]:
            return None
        I = self.I
        d0 = self.diff(I.phi_entry.get(x) or (), I.phi_entry.get(y) or (), assume)
        if d0 is None:
            return None
        bx, by = I.phi_backs.get(x), I.phi_backs.get(y)
        if not bx or not by or len(bx) != len(by):
            return None
        for (u, f), (v, g) in zip(bx, by):
            if f != g:
                return None
            e = self.diff(u, v, assume + ((x, y, d0),))
            if e is None:
                return None
            if e != d0:
                return "no"
        return i - j + d0


def search(c, p, f):
    cl = Search(f)
    I = cl.I = Interp(p, cl)
    w0 = World()
    w0.store[GHOST] = S(mk("lit", 0))
    outs = [w for w, o in I.run(f, args=[S(mk("param", "a%d" % i)) for i in range(len(f["params"]))], world=w0) if o == "return"]
    c.functions |= I.inlined | {f["id"]}
    same = Same(I)
    res = []
    for w in outs:
        r = next(iter(w.ret)) if w.ret and len(w.ret) == 1 else None
        it = dict(r.a[0]) if r is not None and r.op == "rec" else {}
        ev = it.get("evaluations")
        if ev is None:
            res.append((None, "result not understood"))
            continue
        d = same.diff(ev, w.store.get(GHOST) or S(mk("lit", 0)))
        res.append((None, "%s reported, %s made" % (show(ev), show(w.store.get(GHOST)))) if d is None else (d == 0, "%s evaluations reported, %s made" % (show(ev), show(w.store.get(GHOST)))))
    bad, und = [d for o, d in res if o is False], [d for o, d in res if o is None]
    c.ob(EV, where(f), sig(f), False if bad else None if und or not res else True, (bad or und or [""])[0])
    lim = [S(mk("param", "a%d" % i)) for i, x in enumerate(f["params"]) if x["t"] in ("unsigned int", "int", "size_t", "unsigned long")]
    if len(lim) != 1:
        return
    lim = next(iter(lim[0]))
    res = []
    for line, g, facts, st in cl.calls:
        x = next(iter(g)) if len(g) == 1 else None
        if x is None:
            res.append((None, "line %s" % line))
            continue
        if x.op == "lit" and x.a[0] < 2:
            continue
        ok = None
        tests = []
        for t, v in facts:
            if t.op in ("lt", "le"):
                a, b = t.a
                if v and b == lim:
                    tests.append((a, 0 if t.op == "lt" else 1))
                elif not v and a == lim:
                    tests.append((b, 1 if t.op == "lt" else 0))
        for a, s in tests:
            d = same.d1(x, a, ())
            if isinstance(d, int):
                ok = True if d + s <= 1 else ok
        if ok is None and not any(lim in subterms(t) for t, _ in facts):
            ok = False
        ph, _ = linear(x)
        if ok is None and ph is not None and ph.op == "phi":
            # it grows in this loop, where nothing that changes is compared with the limit
            site = ph.a[0]
            back = [linear(y) for y in I.phi_back.get(ph) or ()]
            inloop = any(lim in subterms(t) and any(y.op == "phi" and y.a[0] == site for y in subterms(t)) for t, _ in facts)
            if back and all(q == ph and k >= 1 for q, k in back) and not inloop:
                ok = False
        res.append((ok, "line %s: made %s, tested: %s" % (line, show(x), ", ".join(show(a) for a, _ in tests) or "nothing")))
    bad, und = [d for o, d in res if o is False], [d for o, d in res if o is None]
    if res:
        c.ob(LIM, where(f), sig(f), False if bad else None if und else True, (bad or und or [""])[0])


def reset(c, p):
    rec = next((r for q, r in p.records.items() if "IntegrationStats" in q or any(x["name"] == "number_integration_fails" for x in r.get("fields", []))), None) \
        if hasattr(p, "records") else None
    for f in p.fn(NS + "reset_statistics"):
        if "body" not in f:
            continue
        cl = Client()
        I = Interp(p, cl)
        outs = I.run(f)
        c.functions |= I.inlined | {f["id"]}
        for w, o in outs:
            got = {k.a[1]: v for k, v in w.store.items() if isstats(p, k)}
            names = [x["name"] for x in (rec or {}).get("fields", []) if x["t"] in ("unsigned int", "unsigned long", "int", "size_t")
                     and x["name"] not in ("eval_limit", "search_limit")] or \
                    list(OUTCOMES) + ["calls", "total_search_evals", "total_integrations_evals", "max_successful_integration", "max_successful_search"]
            for n in names:
                v = got.get(n)
                c.ob(RST, where(f), n, None if v is None and any(k.op == "g" and "stats" in str(k.a[0]) for k in w.store) else v == S(mk("lit", 0)), "it is %s" % (show(v) if v else "left as it was"))
