"""Linear conditions of a path: which of the cases a specification distinguishes
can occur on it.  Conditions are inequalities between linear forms; whether a
set of them can hold together is decided by eliminating one quantity after the
other (Fourier and Motzkin), over the integers where the quantities are counts."""
import math
from fractions import Fraction as Q
from .formula import *


class Form:
    """sum of coefficient * quantity, plus a constant"""
    __slots__ = ("c", "k")

    def __init__(self, c=(), k=0):
        self.c, self.k = {a: q for a, q in dict(c).items() if q}, Q(k)

    def plus(self, o, s=1):
        c = dict(self.c)
        for a, q in o.c.items():
            c[a] = c.get(a, 0) + s * q
        return Form(c, self.k + s * o.k)

    def times(self, s):
        return Form({a: q * s for a, q in self.c.items()}, self.k * s)


def form(t):
    """The term as a linear form; anything else is a quantity of its own."""
    t = term(t)
    if isinstance(t, frozenset):
        if len(t) != 1:
            return None
        t = next(iter(t))
    if t.op == "lit" and isinstance(t.a[0], (int, float, bool)):
        try:
            return Form((), Q(t.a[0]))
        except (ValueError, OverflowError):
            return None
    if t.op == "un" and t.a[0] in ("-", "+"):
        f = form(t.a[1])
        return f if f is None or t.a[0] == "+" else f.times(-1)
    if t.op == "bin" and t.a[0] in ("+", "-", "*", "/"):
        a, b = form(t.a[1]), form(t.a[2])
        if a is None or b is None:
            return None
        if t.a[0] in "+-":
            return a.plus(b, 1 if t.a[0] == "+" else -1)
        if t.a[0] == "*" and not b.c:
            return a.times(b.k)
        if t.a[0] == "*" and not a.c:
            return b.times(a.k)
        if t.a[0] == "/" and not b.c and b.k:
            return a.times(1 / b.k)
    return Form({plain(t): Q(1)})


def constraint(a, op, b):
    """[(form, strict)]: form <= 0 or form < 0; None: not linear"""
    x, y = form(a), form(b)
    if x is None or y is None:
        return None
    d = x.plus(y, -1)
    return {"<": [(d, True)], "<=": [(d, False)], "==": [(d, False), (d.times(-1), False)]}[op]


def conditions(facts):
    """(linear conditions, the facts which are none)"""
    out, other = [], []
    for t, v in dict(facts).items():
        r = None
        if t.op in ("lt", "le"):
            a, b = t.a
            # not (a < b) is b <= a; not (a <= b) is b < a
            r = constraint(a, "<" if t.op == "lt" else "<=", b) if v else constraint(b, "<=" if t.op == "lt" else "<", a)
        elif t.op == "eq" and v:
            r = constraint(t.a[0], "==", t.a[1])
        if r is None:
            other.append(t)
        else:
            out += r
    return out, other


def feasible(cs, ints=False):
    """Can the conditions hold together?"""
    cs = [(f, s) for f, s in cs]

    def tight(f, s):
        if ints and f.c:
            # scaled to whole coefficients: f < 0 is f <= -1
            den = 1
            for q in f.c.values():
                den = den * q.denominator // math.gcd(den, q.denominator)
            g = 0
            for q in f.c.values():
                g = math.gcd(g, int(q * den))
            m = Q(den, g)
            h = f.times(m)
            k = h.k if not s else h.k + (1 if h.k.denominator == 1 else 0)
            # sum + k <= 0 over integers: sum <= floor(-k)
            return Form(h.c, Q(-math.floor(-k))), False if ints else s
        return f, s
    cs = [tight(*x) for x in cs]
    while True:
        for f, s in cs:
            if not f.c and (f.k > 0 or s and f.k >= 0):
                return False
        cs = [x for x in cs if x[0].c]
        if not cs:
            return True
        if len(cs) > 400:
            return True
        a = min({q for f, _ in cs for q in f.c}, key=lambda q: (sum(1 for f, _ in cs if q in f.c), q.i))
        lo = [x for x in cs if x[0].c.get(a, 0) < 0]
        hi = [x for x in cs if x[0].c.get(a, 0) > 0]
        rest = [x for x in cs if a not in x[0].c]
        for f, s in lo:
            for g, r in hi:
                h = f.times(1 / -f.c[a]).plus(g.times(1 / g.c[a]))
                rest.append(tight(h, s or r))
        cs = rest


def mentions(t, xs):
    return any(y in xs for y in subterms(t))


class Cases(list):
    """What is specified for each case that can occur on the path: all of them
    must agree.  exact: every case listed certainly occurs."""
    exact = True


def split(facts, cases, ints=False, given=()):
    """cases: [([(a, op, b), ..], value or [alternatives])]; given: conditions
    the specification assumes.  The cases possible on a path with these facts."""
    f = facts.f if isinstance(facts, Facts) else dict(facts)
    cs, other = conditions(f)
    base = [y for x in given for y in constraint(*x)]
    about = set()
    for cond, _ in cases:
        for a, _o, b in cond:
            for x in (form(a), form(b)):
                about |= set(x.c)
    out = Cases()
    out.exact = not any(mentions(t, about) for t in other)
    # a condition on a function of a quantity is not understood either
    for d, _ in cs:
        for q in d.c:
            if q not in about and any(y in about for y in subterms(q)):
                out.exact = False
    for cond, val in cases:
        here = [y for x in cond for y in constraint(*x)]
        if feasible(cs + base + here, ints):
            facts_of = {}
            for a, o, b in cond:
                a, b = plain(term(a)), plain(term(b))
                facts_of[mk("eq" if o == "==" else "lt" if o == "<" else "le", a, b)] = True
            out.append((val if isinstance(val, list) else [val], facts_of))
    return out
