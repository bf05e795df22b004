"""C16: data that cannot be used is refused, data that can is accepted."""
import re
from .. import binding, coverage
from ..formula import *
from ..order import split, constraint
from .c31 import Spy

RULE = ("Every path through the operations which are given data is read from the source with the data symbolic, and divided "
        "by the cases the specification distinguishes: on a path on which data that cannot be used is possible the operation "
        "must throw, on one on which usable data is possible it must not. An order required of a list must be tested between "
        "every two successive elements. On a path that throws the object has not been changed.")

R = "unusable data, and only unusable data, is refused"
O = "the order required of a list is tested throughout"
U = "a refused operation changes nothing"


def outcomes(c, p, f, client=None, args=None):
    cl = client or Spy()
    I = Interp(p, cl)
    cl.I = I
    a = args or [S(mk("param", "a%d" % i)) for i in range(len(f["params"]))]
    outs = [(w, o) for w, o in I.run(f, this=S(mk("obj", f["rec"])) if f.get("rec") and not f.get("smethod") else None, args=a)
            if binding.possible(w.facts)]
    c.functions |= I.inlined | {f["id"]}
    return outs, I


def known(t, about=()):
    """A fact whose meaning is settled by its operator."""
    return t.op in ("lt", "le", "eq", "isnull", "empty") and not any(
        y.op in ("ext", "unknown", "icall", "opaque") for y in subterms(t))


def decide(c, rule, f, outs, I, want, what=None):
    """want(world) -> set of outcomes possible on the path ("throw"/"return"), and whether that is certain"""
    bad = und = None
    seen = set()
    for w, o in outs:
        if o not in ("return", "throw"):
            continue
        ws, exact = want(w, o)
        if ws is None:
            und = und or exact
            continue
        seen.add(o)
        wrong = [x for x in ws if x != o]
        if wrong:
            d = "%s on a path with %s" % ("unusable data is accepted" if o == "return" else "usable data is refused", facts_of(w.facts))
            if exact:
                bad = bad or d
            else:
                und = und or d
    c.ob(rule, where(f), what or sig(f), False if bad else None if und or not seen else True, bad or und or "")


def facts_of(fs):
    return ", ".join("%s%s" % ("" if v else "not ", show(t)) for t, v in sorted(dict(fs).items(), key=lambda x: show(x[0])))[:200] or "no condition"


def worlds(facts):
    """The facts, with each inequality of numbers as either of the two orders"""
    outs = [{}]
    for t, v in Facts(facts).f.items():
        if t.op == "eq" and not v and constraint(t.a[0], "<", t.a[1]) is not None and any(y.op == "size" for y in subterms(t)) and len(outs) < 16:
            a, b = t.a
            outs = [{**o, k: True} for o in outs for k in (mk("lt", a, b), mk("lt", b, a))]
        else:
            outs = [{**o, t: v} for o in outs]
    return outs


def possible_cases(facts, cases):
    """(the outcomes of the cases possible on the path, whether that is certain)"""
    ws, exact = set(), True
    sizes = {y for t, _ in Facts(facts).f.items() for y in subterms(t) if y.op == "size"}
    for f in worlds(facts):
        cs = split(f, cases, ints=True, given=[(0, "<=", E(y)) for y in sizes])
        ws |= {v for vs, _ in cs for v in vs}
        exact = exact and cs.exact
    return ws, exact


def by_cases(cases):
    return lambda w, o: possible_cases(w.facts, cases)


def ctors(p, cls, n=None):
    return [f for f in p.funcs.values() if f.get("rec") == cls and f["k"] == "ctor" and "body" in f and not f.get("implicit")
            and not f.get("defaulted") and f["params"] and (n is None or len(f["params"]) == n)
            and not any(re.search(cls + r"(?!::|\w)", x["t"]) for x in f["params"])]


# ---- an order between successive elements

KEPT = "kept"


class Order:
    """Comparisons between elements of a list, as the indices compared."""

    def __init__(self, I, key):
        self.I, self.key = I, key

    def index(self, t, ix):
        """t is the key of element ix + c: c, and the value it has before the first iteration"""
        if isinstance(t, frozenset):
            return self.index(one(t), ix) if len(t) == 1 else (None, None)
        k = self.key(t)
        if k is not None:
            x, c = linear(k)
            return (c, None) if x == ix else (None, None)
        if t.op == "phi" and t != ix and t.a[0] == ix.a[0]:
            b = self.I.phi_back.get(t)
            if b and len(b) == 1:
                k, _ = self.index(one(b), ix)
                if k is not None:
                    return k - 1, self.I.phi_entry.get(t)
            for v, fs in self.I.phi_backs.get(t) or ():
                # kept as it was, on a condition on the index alone
                if v == S(t) and any(ix in x.a for x, _ in fs if x.op in ("eq", "lt", "le")
                                     and all(y == ix or y.op == "lit" for y in x.a)):
                    return KEPT, None
        return None, None

    def compare(self, t, v, ix):
        """(ok, c): the fact says that elements ix+c, ix+c+1 are (not) in order;
        None: it is no comparison of elements; ("wrong", why)"""
        if t.op not in ("lt", "le"):
            return None
        (a, e1), (b, e2) = self.index(t.a[0], ix), self.index(t.a[1], ix)
        if a is None or b is None:
            return None
        if KEPT in (a, b):
            return "wrong", "an element is not compared with its predecessor, but with an earlier one", None
        # normalise to "A before B": lt(A, B); le(B, A) is its negation
        if t.op == "lt":
            lo, hi, inorder, ent = a, b, v, e1
        else:
            lo, hi, inorder, ent = b, a, not v, e2
        if hi == lo + 1:
            return inorder, lo, ent
        if lo == hi + 1:
            # element k+1 < element k: equal elements count as in order
            return "wrong", "equal values count as increasing", ent
        return "wrong", "elements %d apart are compared" % abs(hi - lo), ent


def ordered(c, p, f, I, outs, key, n, whole):
    """whole: cases deciding before the elements are looked at"""
    od = Order(I, key)
    at, what = where(f), sig(f)
    ixs = [x for x in I.phi_entry if len(I.phi_entry[x]) == 1 and x in I.phi_back and len(I.phi_back[x]) == 1
           and coverage.plus1(one(I.phi_back[x]), x)]

    def comparisons(fs):
        out = []
        for t, v in fs:
            for ix in ixs:
                r = od.compare(t, v, ix)
                if r is not None:
                    out.append((ix, r))
        return out

    def want(w, o):
        ws, exact = possible_cases(w.facts, whole)
        if o == "throw" and ws == {"return"}:
            cmp_ = comparisons(w.facts)
            if any(r[0] is False for _, r in cmp_):
                return {"throw"}, True
            if any(r[0] == "wrong" for _, r in cmp_):
                return None, "a comparison of elements which is not understood"
            if not all(known(t) for t, _ in w.facts) or any(y.op == "phi" for t, _ in w.facts for y in subterms(t)):
                return None, "refused on a condition which is not understood: " + facts_of(w.facts)
        return ws, exact
    decide(c, R, f, outs, I, want)

    # no path is refused but on the numbers of elements
    plain_tests = all(t.op in ("lt", "le", "eq", "empty") and not any(y.op in ("m", "idx", "ext") for y in subterms(t))
                      and (v or not any(y.op == "phi" for y in subterms(t)) or t.op == "lt")
                      for w, o in outs if o == "throw" for t, v in w.facts)
    bad = und = None
    some = 0
    for w, o in outs:
        if o != "return":
            continue
        some += 1
        r, d = covered(od, I, w, ixs, n, plain_tests)
        if r is False:
            bad = bad or d
        elif r is None:
            und = und or d
    c.ob(O, at, what, False if bad else None if und or not some else True, bad or und or "")


def covered(od, I, w, ixs, n, plain_tests):
    best = (None, "")
    loops = 0
    for ix in ixs:
        backs = I.phi_backs.get(ix) or []
        cmps = [[r for t, v in fs for r in [od.compare(t, v, ix)] if r is not None] for _, fs in backs]
        if not any(cmps):
            continue
        loops += 1
        rs = [r for cs in cmps for r in cs]
        wrong = [r for r in rs if r[0] == "wrong"]
        cs = {r[1] for r in rs if r[0] is True}
        if not cs:
            best = (False, wrong[0][1]) if wrong and len(wrong) == len(rs) else (None, "the comparison is not understood")
            continue
        if len(cs) > 1:
            best = (None, "several comparisons")
            continue
        k = cs.pop()
        # iterations which continue without having compared
        miss = None
        for (_, fs), cm in zip(backs, cmps):
            if any(r[0] is True for r in cm):
                continue
            first = any(t.op == "eq" and v and set(t.a) == {ix, mk("lit", 0)} or
                        t.op == "lt" and not v and t.a == (mk("lit", 0), ix) or
                        t.op == "le" and v and t.a == (ix, mk("lit", 0)) or
                        t.op == "lt" and v and t.a == (ix, mk("lit", 1)) or
                        t.op == "le" and not v and t.a == (mk("lit", 1), ix) for t, v in fs)
            if not first:
                simple = all(t.op in ("lt", "le", "eq") for t, v in fs)
                miss = (False if simple and not wrong else None, "elements are passed over: " + facts_of(fs))
        if miss:
            best = miss
            continue
        ent = linear(one(I.phi_entry[ix]))
        ends = []
        for t, v in w.facts:
            if t.op in ("lt", "le") and not v and linear(t.a[0])[0] == ix:
                x, j = linear(t.a[1])
                ends.append((x, j - linear(t.a[0])[1] + (1 if t.op == "le" else 0)))
            if t.op == "eq" and v and ix in t.a:
                ends += [linear(x) for x in t.a if x != ix]
        if len(ends) != 1 or ends[0][0] != n or ent[0] is not None:
            best = (None, "which elements the loop visits is not understood")
            continue
        if ent[1] + k > 0:
            return False, "the first pair compared is elements %d and %d" % (ent[1] + k, ent[1] + k + 1)
        if ends[0][1] - 1 + k + 1 < -1:
            return False, "the last %d elements are not compared" % -(ends[0][1] + k + 1)
        return True, ""
    if best[0] is None and not best[1]:
        if plain_tests and all(known(t) for t, _ in w.facts):
            return False, "elements in any order are accepted"
        return None, "how the order is tested is not understood"
    return best


def elem_of(p0):
    """key: the terms which are the element, and functions increasing in it"""
    def key(t):
        if t.op == "idx" and t.a[0] == p0:
            return t.a[1] if isinstance(t.a[1], T) else None
        return None
    return key


def via(p0, names, alts=()):
    def key(t):
        if t.op == "m" and last(t.a[0]) in names and len(t.a) == 2:
            x = t.a[1]
            x = one_or_none_(x)
            while x is not None and x.op == "addr":
                x = one_or_none_(x.a[0])
            if x is not None and x.op == "idx" and x.a[0] in (p0,) + tuple(alts):
                return x.a[1] if isinstance(x.a[1], T) else None
        return None
    return key


def one_or_none_(x):
    if isinstance(x, T):
        return x
    return next(iter(x)) if isinstance(x, frozenset) and len(x) == 1 else None


def run(thorough=False):
    c = Check("C16", RULE, thorough)
    p = the_model().p
    a0, a1 = mk("param", "a0"), mk("param", "a1")
    S0, S1 = size(param("a0")), size(param("a1"))

    def each(fs, go):
        for f in fs:
            guarded(c, R, where(f), sig(f), lambda: go(f))

    # lists which must not be empty
    empty = [([(S0, "==", 0)], "throw"), ([(1, "<=", S0)], "return")]
    for cls in ("SimpleLossFn", "BiLevelLossFn"):
        each(ctors(p, "SLAT::" + cls, 1), lambda f: decide(c, R, f, *outcomes(c, p, f), by_cases(empty)))

    # damage states in increasing order
    def frag(f):
        outs, I = outcomes(c, p, f, Vocab({"get_mu_lnX", "get_median_X"}))
        ds = fld(obj("SLAT::FragilityFn"), "damage_states").t
        ordered(c, p, f, I, outs, via(a0, ("get_mu_lnX", "get_median_X"), (ds,)), mk("size", a0), empty)
    each(ctors(p, "SLAT::FragilityFn", 1), frag)

    # tables of at least two points, abscissae increasing
    two = [([(param("a2"), "<", 2)], "throw"), ([(2, "<=", param("a2"))], "return")]

    def table(f):
        outs, I = outcomes(c, p, f)
        ordered(c, p, f, I, outs, elem_of(a0), mk("param", "a2"), two)
    for cls in ("LinearInterpolatedFn", "LogLogInterpolatedFn"):
        each(ctors(p, "SLAT::" + cls, 3), table)

    # lists of the same length
    same = lambda x, y: [([(x, "==", y)], "return"), ([(x, "<", y)], "throw"), ([(y, "<", x)], "throw")]
    each([f for f in p.fn("SLAT::LogNormalDist::AddWeightedDistributions") if "body" in f],
         lambda f: decide(c, R, f, *outcomes(c, p, f), by_cases(same(S0, S1))))
    for cls, lst in (("BiLevelLossFn", "distributions"),):
        n = size(fld(obj("SLAT::" + cls), lst))
        each([f for f in p.fn("SLAT::%s::CalculateUnadjustedLoss" % cls) if "body" in f],
             lambda f: decide(c, R, f, *outcomes(c, p, f), by_cases(same(S0, n))))

    kinds(c, p)
    group(c, p)
    none(c, p)
    c.need(R, 8)
    c.need(O, 1)
    return c.finish()


def kinds(c, p):
    """the declared kinds of a probabilistic function"""
    for f in ctors(p, "SLAT::LogNormalFn", 4):
        ms = [k for k in enum(p, f["params"][1]["t"])]
        ss = [k for k in enum(p, f["params"][3]["t"])]
        if not ms or not ss:
            continue
        other = [{"name": "a number that is no kind", "v": 99}]
        for m_ in ms + other:
            for s_ in ss + other:
                ok = all("INVALID" not in k["name"] and k["v"] != 99 for k in (m_, s_))
                what = "%s: %s, %s" % (sig(f), last(m_["name"]), last(s_["name"]))

                def go():
                    outs, I = outcomes(c, p, f, args=[S(mk("param", "a0")), S(mk("lit", m_["v"])), S(mk("param", "a2")), S(mk("lit", s_["v"]))])
                    w = "return" if ok else "throw"
                    decide(c, R, f, outs, I, lambda w_, o: ({w}, all(known(t) for t, _ in w_.facts)), what)
                guarded(c, R, where(f), what, go)


def enum(p, t):
    for q, e in p.enums.items():
        if q and last(q) == last(t.split()[-1] if t else ""):
            return e["consts"]
    return []


def group(c, p):
    """a component group with another intensity measure than the structure's"""
    for f in p.fn("SLAT::Structure::AddCompGroup"):
        if "body" not in f:
            continue
        s = obj("SLAT::Structure")
        n = size(fld(s, "components")).t
        im = fld(s, "im").t

        def go():
            outs, I = outcomes(c, p, f, Vocab({"getIM"}))

            def want(w, o):
                F = Facts(w.facts)
                vs, _ = possible_cases(w.facts, [([(E(n), "==", 0)], "none"), ([(1, "<=", E(n))], "some")])
                sames = [v for t, v in F.f.items() if t.op == "eq" and im in t.a and
                         any(y.op == "m" and last(y.a[0]) == "getIM" for q in t.a for y in subterms(q))]
                other = [t for t, v in w.facts if not known(t)]
                if other:
                    return None, "not understood: " + show(other[0])
                if vs == {"none"}:
                    return {"return"}, True
                if sames:
                    out = {"return"} if sames[0] else {"throw"}
                    return out | ({"return"} if "none" in vs else set()), True
                return {"return", "throw"}, True
            decide(c, R, f, outs, I, want)
            changed = None
            for w, o in outs:
                if o != "throw":
                    continue
                for loc, v in w.store.items():
                    if isinstance(loc, T) and root(loc) == s.t and v != S(loc):
                        changed = changed or show(loc)
            c.ob(U, where(f), sig(f), changed is None, "%s is changed before the group is refused" % changed)
        guarded(c, R, where(f), sig(f), go)


def none(c, p):
    """an object is never replaced by no object"""
    for f in sorted(p.funcs.values(), key=lambda f: (f["file"], f["line"])):
        if f["name"] == "replace" and binding.BIND in f["file"] and "body" in f and len(f["params"]) == 1 and f["params"][0]["t"].endswith("*"):
            def go():
                outs, I = binding.run(p, f)
                c.functions |= I.inlined | {f["id"]}

                def want(w, o):
                    v = Facts(w.facts).isnull(param("a0"))
                    ok = all(known(t) for t, _ in w.facts)
                    return ({"throw"} if v else {"return"} if v is False else {"throw", "return"}), ok
                decide(c, R, f, outs, I, want)
            guarded(c, R, where(f), sig(f), go)
