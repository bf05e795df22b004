"""Normal forms of arithmetic values.

A value term of the interpreter is rewritten into a quotient of polynomials
over atoms (calls, fields, parameters: uninterpreted) and kernels (exp, log,
fractional powers, |x|, max, min of normal forms).  Two terms with equal normal
forms are equal as real functions wherever both are defined; the rewriting is
deterministic algebra on the terms read from the source, nothing is evaluated
and no solver is involved.
"""
from fractions import Fraction as Q
from .interp import T, mk, show, subterms, NAN, INF


class Undecided(Exception):
    pass


LIMIT = 4000


class RF:
    """num/den; each {monomial: coefficient}; monomial = frozenset of (atom id, exponent)."""
    __slots__ = ("n", "d")

    def __init__(self, n, d=None):
        self.n = n
        self.d = d if d is not None else {ONE: Q(1)}
        if len(self.n) > LIMIT or len(self.d) > LIMIT:
            raise Undecided("formula too large")


ONE = frozenset()


def low(com, d):
    """Exponents common to all monomials (an absent atom has exponent 0)."""
    if com is None:
        return dict(d)
    return {i: min(com.get(i, 0), d.get(i, 0)) for i in set(com) | set(d)}


def padd(a, b, s=1):
    out = dict(a)
    for m, c in b.items():
        v = out.get(m, 0) + s * c
        if v:
            out[m] = v
        else:
            out.pop(m, None)
    return out


class Norm:
    def __init__(self, rule=None, zero=()):
        self.rule = rule              # (term, self) -> RF | term | None
        self.zero = set(zero)         # terms known to be zero
        self.atoms = []               # (kind, payload)
        self.ix = {}
        self.kern = {}                # kind -> [(args, id)]
        self.memo = {}

    # ---- atoms
    def atom(self, key):
        if key not in self.ix:
            self.ix[key] = len(self.atoms)
            self.atoms.append(("a", key))
        return self.ix[key]

    def kernel(self, kind, *args):
        for a, i in self.kern.setdefault(kind, []):
            if len(a) == len(args) and all(self.eq(x, y) for x, y in zip(a, args)):
                return i
        i = len(self.atoms)
        self.atoms.append((kind, args))
        self.kern[kind].append((args, i))
        return i

    def var(self, i, e=Q(1)):
        return RF({frozenset([(i, Q(e))]): Q(1)})

    def const(self, c):
        c = Q(c)
        return RF({ONE: c} if c else {})

    # ---- arithmetic
    def mono(self, ms):
        """Product of monomials -> RF (kernels with whole exponents are expanded)."""
        e = {}
        for m in ms:
            for i, x in m:
                e[i] = e.get(i, 0) + x
        expo = None
        extra = []
        for i in list(e):
            k, pl = self.atoms[i]
            if e[i] == 0:
                del e[i]
            elif k == "exp":
                t = self.mul(pl[0], self.const(e.pop(i)))
                expo = t if expo is None else self.add(expo, t)
            elif k == "poly":
                x = e.pop(i)
                w = x.numerator // x.denominator
                fr = x - w
                if fr:
                    e[i] = fr
                if w:
                    extra.append(self.ipow(pl[0], w))
            elif k == "abs" and e[i].denominator == 1 and e[i] % 2 == 0:
                extra.append(self.ipow(pl[0], int(e.pop(i))))
            elif k == "int" and (e[i] >= 1 or e[i] < 0):
                x = e.pop(i)
                w = x.numerator // x.denominator
                if x - w:
                    e[i] = x - w
                extra.append(self.const(Q(pl[0]) ** w))
        if expo is not None and self.iszero(expo):
            expo = None
        if expo is not None:
            e[self.kernel("exp", expo)] = Q(1)
        r = RF({frozenset((i, x) for i, x in e.items()): Q(1)})
        for x in extra:
            r = self.mul(r, x)
        return r

    def special(self, m):
        return any(self.atoms[i][0] in ("exp", "poly", "abs", "int") for i, _ in m)

    def pmul(self, a, b):
        """Polynomial * polynomial -> RF"""
        out, extra = {}, []
        for m, c in a.items():
            for n, d in b.items():
                if not m and not self.special(n) or not n and not self.special(m):
                    k = m or n
                elif (not m or not n) and all(x > 0 for _, x in m or n):
                    k = m or n
                elif not m or not n:
                    r = self.mono((m or n,))
                    if not (len(r.n) == 1 and r.d == {ONE: Q(1)}):
                        extra.append(self.scale(r, c * d))
                        continue
                    (k, cc), = r.n.items()
                    d = d * cc
                elif self.special(m) and self.special(n) or (m and n and set(i for i, _ in m) & set(i for i, _ in n)):
                    r = self.mono((m, n))
                    if len(r.n) == 1 and r.d == {ONE: Q(1)}:
                        (k, cc), = r.n.items()
                        v = out.get(k, 0) + c * d * cc
                        if v:
                            out[k] = v
                        else:
                            out.pop(k, None)
                        continue
                    extra.append(self.scale(r, c * d))
                    continue
                else:
                    k = m | n
                v = out.get(k, 0) + c * d
                if v:
                    out[k] = v
                else:
                    out.pop(k, None)
            if len(out) > LIMIT:
                raise Undecided("formula too large")
        r = RF(out)
        for x in extra:
            r = self.add(r, x)
        return r

    def scale(self, a, c):
        return RF({m: x * c for m, x in a.n.items()} if c else {}, a.d)

    def add(self, a, b):
        if a.d == b.d:
            return self.tidy(RF(padd(a.n, b.n), a.d))
        x = self.pmul(a.n, b.d)
        y = self.pmul(b.n, a.d)
        d = self.pmul(a.d, b.d)
        n = self.add(x, y) if x.d != y.d else RF(padd(x.n, y.n), x.d)
        return self.div(n, d)

    def sub(self, a, b):
        return self.add(a, self.scale(b, Q(-1)))

    def mul(self, a, b):
        if not a.n or not b.n:
            return RF({})
        n = self.pmul(a.n, b.n)
        d = self.pmul(a.d, b.d)
        if len(n.d) == 1 and ONE in n.d and len(d.d) == 1 and ONE in d.d:
            return self.tidy(RF(n.n, d.n))
        return self.div(n, d)

    def div(self, a, b):
        if not b.n:
            raise Undecided("division by zero")
        if a.d == b.d:
            return self.tidy(RF(a.n, b.n))
        n = self.pmul(a.n, b.d)
        d = self.pmul(a.d, b.n)
        one = {ONE: Q(1)}
        if n.d == one and d.d == one:
            return self.tidy(RF(n.n, d.n))
        return self.div(n, d)

    def tidy(self, r):
        """Monomial denominators (and common factors) move into the numerator."""
        if not r.n:
            return RF({})
        if len(r.d) == 1:
            (m, c), = r.d.items()
            if m == ONE and c == 1:
                return r
            inv = frozenset((i, -x) for i, x in m)
            if not self.special(m):
                out = {}
                for k, v in r.n.items():
                    e = dict(k)
                    for i, x in inv:
                        e[i] = e.get(i, 0) + x
                    kk = frozenset((i, x) for i, x in e.items() if x)
                    out[kk] = out.get(kk, 0) + v / c
                return RF({k: v for k, v in out.items() if v})
            # exp and fractional kernels invert
            r2 = self.pmul(r.n, {inv: Q(1) / c})
            return r2
        return r

    def iszero(self, a):
        return not a.n

    def eq(self, a, b):
        if a.n == b.n and a.d == b.d:
            return True
        one = {ONE: Q(1)}
        if a.d == one and b.d == one and not any(self.special(m) for m in list(a.n) + list(b.n)):
            return a.n == b.n
        return self.iszero(self.sub(a, b))

    def ipow(self, a, n):
        if n < 0:
            return self.div(self.const(1), self.ipow(a, -n))
        r = self.const(1)
        for _ in range(n):
            r = self.mul(r, a)
        return r

    def isconst(self, a):
        if not a.n:
            return Q(0)
        if len(a.n) == 1 and ONE in a.n and a.d == {ONE: Q(1)}:
            return a.n[ONE]
        return None

    # ---- functions
    def polypow(self, p, q):
        """Polynomial ** fraction."""
        q = Q(q)
        if len(p) == 1:
            (m, c), = p.items()
            r = RF({ONE: Q(1)})
            if c != 1:
                r = self.cpow(c, q)
            e = []
            for i, x in m:
                k, pl = self.atoms[i]
                if k == "exp":
                    r = self.mul(r, self.exp(self.mul(pl[0], self.const(x * q))))
                else:
                    e.append((i, x * q))
            return self.mul(r, self.mono([frozenset(e)]))
        # take out the common monomial
        com = None
        for m in p:
            d = {i: x for i, x in m if self.atoms[i][0] == "a"}
            com = low(com, d)
        lead = p[min(p, key=lambda m: sorted(m))]
        c = abs(lead)
        cm = frozenset((i, x) for i, x in com.items() if x)
        if cm or c != 1:
            rest = {}
            for m, v in p.items():
                e = dict(m)
                for i, x in cm:
                    e[i] = e.get(i, 0) - x
                rest[frozenset((i, x) for i, x in e.items() if x)] = v / c
            r = self.mul(self.cpow(c, q), self.mono([frozenset((i, x * q) for i, x in cm)]))
            return self.mul(r, self.polypow(rest, q))
        i = self.kernel("poly", RF(p))
        return self.mono([frozenset([(i, q)])])

    def cpow(self, c, q):
        c = Q(c)
        if c < 0:
            return self.mono([frozenset([(self.kernel("poly", self.const(c)), q)])]) if q.denominator != 1 else self.const(c ** int(q))
        out = self.const(1)
        for v, s in ((c.numerator, 1), (c.denominator, -1)):
            if v == 1:
                continue
            if q.denominator == 2:
                import math
                r = math.isqrt(v)
                if r * r == v:
                    out = self.mul(out, self.const(Q(r) ** (q.numerator * s)))
                    continue
            if q.denominator == 1:
                out = self.mul(out, self.const(Q(v) ** (q.numerator * s)))
                continue
            if ("int", v) not in self.ix:
                self.ix[("int", v)] = len(self.atoms)
                self.atoms.append(("int", (v,)))
            out = self.mul(out, self.mono([frozenset([(self.ix[("int", v)], q * s)])]))
        return out

    def pow(self, a, q):
        q = Q(q)
        if q.denominator == 1:
            return self.ipow(a, int(q))
        if not a.n:
            return RF({})
        n = self.polypow(a.n, q)
        if a.d == {ONE: Q(1)}:
            return n
        return self.mul(n, self.polypow(a.d, -q))

    def exp(self, a):
        c = self.isconst(a)
        if c == 0:
            return self.const(1)
        # exp(q log u + r) = u^q exp(r)
        r = self.const(1)
        if a.d == {ONE: Q(1)}:
            rest = {}
            for m, c in a.n.items():
                if len(m) == 1:
                    (i, x), = m
                    if x == 1 and self.atoms[i][0] == "log":
                        r = self.mul(r, self.pow(self.atoms[i][1][0], c))
                        continue
                rest[m] = c
            if not rest:
                return r
            a = RF(rest)
        return self.mul(r, self.mono([frozenset([(self.kernel("exp", a), Q(1))])]))

    def log(self, a):
        out = RF({})
        for p, s in ((a.n, 1), (a.d, -1)):
            out = self.add(out, self.scale(self.logp(p), Q(s)))
        return out

    def logint(self, v):
        out, d = RF({}), 2
        if v <= 0 or v > 10 ** 9:
            return self.var(self.kernel("log", self.const(v)))
        while v > 1:
            if d * d > v:
                d = v
            while v % d == 0:
                out = self.add(out, self.var(self.kernel("log", self.const(d))))
                v //= d
            d += 1
        return out

    def logp(self, p):
        if not p:
            return self.var(self.atom(("log0",)))
        out = RF({})
        if len(p) == 1:
            (m, c), = p.items()
            if c != 1:
                for v, s in ((c.numerator, 1), (c.denominator, -1)):
                    if v != 1:
                        out = self.add(out, self.scale(self.logint(v), Q(s)))
            for i, x in m:
                k, pl = self.atoms[i]
                if k == "exp":
                    out = self.add(out, self.mul(pl[0], self.const(x)))
                elif k == "int":
                    out = self.add(out, self.scale(self.logint(pl[0]), x))
                elif k == "poly":
                    out = self.add(out, self.scale(self.var(self.kernel("log", pl[0])), x))
                else:
                    out = self.add(out, self.scale(self.var(self.kernel("log", self.var(i))), x))
            return out
        com = None
        for m in p:
            d = dict(m)
            com = low(com, d)
        cm = frozenset((i, x) for i, x in com.items() if x)
        c = abs(p[min(p, key=lambda m: sorted(m))])
        if cm or c != 1:
            rest = {}
            for m, v in p.items():
                e = dict(m)
                for i, x in cm:
                    e[i] = e.get(i, 0) - x
                rest[frozenset((i, x) for i, x in e.items() if x)] = v / c
            return self.add(self.logp({cm: c}), self.logp(rest))
        return self.var(self.kernel("log", RF(p)))

    def abs(self, a):
        c = self.isconst(a)
        if c is not None:
            return self.const(abs(c))
        if len(a.n) == 1:
            (m, c), = a.n.items()
            r = self.const(abs(c))
            for i, x in m:
                k, pl = self.atoms[i]
                if k in ("exp", "poly", "abs", "int") or (x.denominator != 1) or x % 2 == 0 or self.positive(i):
                    r = self.mul(r, self.mono([frozenset([(i, x)])]))
                else:
                    r = self.mul(r, self.mono([frozenset([(self.kernel("abs", self.var(i)), x)])]))
            return self.div(r, self.abs(RF(a.d))) if a.d != {ONE: Q(1)} else r
        if a.d != {ONE: Q(1)}:
            return self.div(self.abs(RF(a.n)), self.abs(RF(a.d)))
        lead = a.n[min(a.n, key=lambda m: sorted(m))]
        a2 = self.scale(a, Q(1) / lead)
        return self.scale(self.var(self.kernel("abs", a2)), abs(lead))

    def positive(self, i):
        return False

    def extreme(self, kind, xs):
        xs = list(xs)
        flat = []
        for x in xs:
            if len(x.n) == 1 and x.d == {ONE: Q(1)}:
                (m, c), = x.n.items()
                if c == 1 and len(m) == 1:
                    (i, e), = m
                    if e == 1 and self.atoms[i][0] == kind:
                        flat += self.atoms[i][1]
                        continue
            flat.append(x)
        out = []
        for x in flat:
            if not any(self.eq(x, y) for y in out):
                out.append(x)
        if len(out) == 1:
            return out[0]
        # order does not matter
        for a, i in self.kern.setdefault(kind, []):
            if len(a) == len(out) and all(any(self.eq(x, y) for y in a) for x in out):
                return self.var(i)
        i = len(self.atoms)
        self.atoms.append((kind, tuple(out)))
        self.kern[kind].append((tuple(out), i))
        return self.var(i)

    # ---- terms
    def nf(self, t):
        if isinstance(t, RF):
            return t
        if isinstance(t, frozenset):
            if len(t) != 1:
                raise Undecided("several values: %s" % show(t)[:120])
            t = next(iter(t))
        r = self.memo.get(t)
        if r is None:
            r = self.nf1(t)
            self.memo[t] = r
        return r

    def nf1(self, t):
        if t in self.zero:
            return self.const(0)
        if self.rule:
            r = self.rule(t, self)
            if isinstance(r, RF):
                return r
            if isinstance(r, (T, frozenset)):
                return self.nf(r)
        if t.op == "lit":
            v = t.a[0]
            if isinstance(v, bool) or v in ("true", "false"):
                return self.const(1 if v in (True, "true") else 0)
            if isinstance(v, int):
                return self.const(v)
            if isinstance(v, float):
                return self.const(Q(str(v)))
            return self.var(self.atom(("lit", v)))
        if t.op == "bin":
            op = t.a[0]
            if op in "+-*/" and len(op) == 1:
                a, b = self.nf(t.a[1]), self.nf(t.a[2])
                return {"+": self.add, "-": self.sub, "*": self.mul, "/": self.div}[op](a, b)
        if t.op == "un" and t.a[0] == "-":
            return self.scale(self.nf(t.a[1]), Q(-1))
        if t.op == "un" and t.a[0] == "+":
            return self.nf(t.a[1])
        if t.op == "ext":
            r = self.fn(t)
            if r is not None:
                return r
        return self.var(self.atom(self.canon(t)))

    def fn(self, t):
        n = str(t.a[0]).split("::")[-1]
        args = list(t.a[1]) if len(t.a) > 1 and isinstance(t.a[1], tuple) else list(t.a[1:])
        one = {"exp": self.exp, "log": self.log, "fabs": self.abs, "abs": self.abs}
        try:
            if n in one and len(args) == 1:
                return one[n](self.nf(args[0]))
            if n == "sqrt" and len(args) == 1:
                return self.pow(self.nf(args[0]), Q(1, 2))
            if n == "expm1" and len(args) == 1:
                return self.sub(self.exp(self.nf(args[0])), self.const(1))
            if n == "log1p" and len(args) == 1:
                return self.log(self.add(self.nf(args[0]), self.const(1)))
            if n == "pow" and len(args) == 2:
                b = self.nf(args[1])
                c = self.isconst(b)
                if c is not None and c.denominator <= 6 and abs(c.numerator) <= 6:
                    return self.pow(self.nf(args[0]), c)
                return self.exp(self.mul(b, self.log(self.nf(args[0]))))
            if n in ("max", "min", "fmax", "fmin") and len(args) == 2:
                return self.extreme(n[-3:], [self.nf(a) for a in args])
        except Undecided:
            raise
        return None

    def canon(self, t):
        """Key of an atom, its arguments normalised."""
        if isinstance(t, T):
            if t in self.zero:
                return ("num", self.key(self.const(0)))
            if t.op == "bin" and t.a[0] in ("+", "-", "*", "/") or t.op == "un" and t.a[0] == "-" or (t.op == "ext" and self.isfn(t)) or t.op == "lit":
                if t.op == "lit" and not isinstance(t.a[0], (int, float)):
                    return ("lit", t.a[0])
                return ("num", self.key(self.nf(t)))
            if self.rule and t.op in ("m", "ext", "icall"):
                r = self.rule(t, self)
                if isinstance(r, RF):
                    return ("num", self.key(r))
                if isinstance(r, T) and r is not t:
                    return self.canon(r)
                if isinstance(r, tuple):
                    return r
            return (t.op,) + tuple(self.canon(x) for x in t.a)
        if isinstance(t, frozenset):
            return ("set",) + tuple(sorted((self.canon(x) for x in t), key=repr)) if len(t) != 1 else self.canon(next(iter(t)))
        if isinstance(t, tuple):
            return tuple(self.canon(x) for x in t)
        return t

    @staticmethod
    def isfn(t):
        return str(t.a[0]).split("::")[-1] in ("exp", "log", "fabs", "abs", "sqrt", "pow", "max", "min", "expm1", "log1p")

    def key(self, rf):
        for x, i in self.kern.setdefault("#", []):
            if self.eq(x, rf):
                return i
        i = len(self.kern["#"])
        self.kern["#"].append((rf, i))
        return i

    # ---- what a form is made of
    def leaves(self, rf, seen=None):
        """Atom keys a form is made of, through kernels."""
        seen = set() if seen is None else seen
        out = set()
        for p in (rf.n, rf.d):
            for m in p:
                for i, x in m:
                    if i in seen:
                        continue
                    seen.add(i)
                    k, pl = self.atoms[i]
                    if k == "a":
                        out.add(pl)
                    elif k != "int":
                        for r in pl:
                            out |= self.leaves(r, seen)
        return out

    def show(self, rf):
        def mono(m):
            s = []
            for i, x in sorted(m):
                k, pl = self.atoms[i]
                a = ks(pl) if k == "a" else str(pl[0]) if k == "int" else "%s(%s)" % (k, ", ".join(self.show(r) for r in pl))
                s.append(a if x == 1 else "%s^%s" % (a, x))
            return "*".join(s)

        def poly(p):
            ts = []
            for m in sorted(p, key=lambda m: sorted(m)):
                c = p[m]
                ts.append(("" if c == 1 and m else "-" if c == -1 and m else str(c) + ("*" if m else "")) + mono(m))
            return " + ".join(ts) or "0"

        def ks(k):
            if isinstance(k, tuple):
                if k and k[0] == "f" and len(k) == 3:
                    return "%s.%s" % (ks(k[1]), k[2])
                if k and k[0] == "obj":
                    return "this"
                if k and k[0] in ("param", "lit") and len(k) == 2:
                    return str(k[1])
                if k and k[0] == "num":
                    return self.show(self.kern["#"][k[1]][0])
                if k and k[0] == "m":
                    return "%s(%s)" % (str(k[1]).split("::")[-1], ", ".join(ks(x) for x in k[2:] if x != ()))
                return "(" + " ".join(ks(x) for x in k) + ")"
            return str(k)
        s = poly(rf.n)
        if rf.d != {ONE: Q(1)}:
            s = "(%s) / (%s)" % (s, poly(rf.d))
        return s if len(s) < 400 else s[:400] + "..."


# ---- a point which separates two normal forms
import hashlib, math


class Point:
    """Deterministic sample values for the atoms of a Norm."""

    def __init__(self, norm, seed):
        self.n, self.seed, self.memo = norm, seed, {}

    def atom(self, i):
        v = self.memo.get(i)
        if v is None:
            k, pl = self.n.atoms[i]
            if k == "a":
                h = hashlib.sha256(("%d:%d" % (self.seed, i)).encode()).digest()
                v = 0.15 + 0.7 * int.from_bytes(h[:6], "big") / 2 ** 48
                if self.seed % 2 and h[7] % 3 == 0:
                    v = -v
            elif k == "int":
                v = float(pl[0])
            else:
                a = [self.value(x) for x in pl]
                v = {"exp": lambda: math.exp(a[0]), "log": lambda: math.log(a[0]), "poly": lambda: a[0],
                     "abs": lambda: abs(a[0]), "max": lambda: max(a), "min": lambda: min(a)}[k]()
            self.memo[i] = v
        return v

    def poly(self, p):
        s = 0.0
        for m, c in p.items():
            v = float(c)
            for i, x in m:
                b = self.atom(i)
                v *= b ** int(x) if x.denominator == 1 else self.root(b, x)
            s += v
        return s

    @staticmethod
    def root(b, x):
        if b < 0:
            raise ValueError
        return b ** float(x)

    def value(self, r):
        d = self.poly(r.d)
        return self.poly(r.n) / d


def same(n, a, b):
    """True: equal; False: different, and some point tells them apart; None."""
    try:
        if n.eq(a, b):
            return True
    except Undecided:
        return None
    for seed in range(40):
        p = Point(n, seed)
        try:
            x, y = p.value(a), p.value(b)
        except (ValueError, ZeroDivisionError, OverflowError):
            continue
        if abs(x - y) > 1e-6 * (abs(x) + abs(y) + 1e-9):
            return False
    return None
