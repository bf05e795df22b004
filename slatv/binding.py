"""The Python binding: what each function asks the library for, and what it
builds from it. Library functions stay uninterpreted; the binding's own code is
followed, and the objects it makes are written out as built(class, arguments)."""
from .formula import *

BIND = "pyslatcore"


class Spy(Vocab):
    """dom: (kind, ...) of each path, in order: objects built, library calls."""

    def policy(self, e, fn, obj):
        if fn is None or "body" not in fn and not fn.get("inits"):
            return "opaque"
        if fn.get("islambda"):
            return "inline"
        if fn.get("k") == "ctor" and fn["name"] in self.inl:
            return "inline"
        return "opaque" if fn["q"].startswith("SLAT::") else "inline"

    def data(self, w, t):
        """The elements of a list which is a copy of a parameter."""
        if t.op == "addr" and t.a[0].op == "v":
            v = self.I.read1(w, t.a[0])
            if len(v) == 1 and one(v).op == "param":
                return mk("data", one(v))
        return t

    def on(self, w, ev):
        d = ev.d
        e = None
        if ev.k == "construct":
            cls = d["cls"] or ""
            if cls.startswith("SLAT::") and len(d["locs"]) == 1:
                e = ("built", one(d["locs"]), cls, tuple(frozenset(self.data(w, t) for t in v) for v in self.I.vals_of(w, d["args"])))
        elif ev.k == "copy" and ev.d.get("cls", "").startswith("SLAT::"):
            e = None
        elif ev.k == "opaque":
            fn = d.get("fn")
            e = ("call", d["q"] or d["n"], (frozenset().union(*[self.I.read1(w, o) for o in d["objs"]]) if d["objs"] else None), tuple(d["vals"]),
                 bool(fn) and fn.get("ret", "") == "void")
        elif ev.k == "delete":
            e = ("delete", d["ptr"])
        if e is None or e[0] == "call" and not e[4] or e in (w.dom or ()):
            return None
        w = w.copy()
        w.dom = (w.dom or ()) + (e,)
        return [w]


def run(p, f, args=None):
    cl = Spy(())
    I = Interp(p, cl)
    cl.I = I
    if args is None:
        args = [S(mk("param", "a%d" % i)) for i in range(len(f["params"]))]
    this = S(mk("obj", f["rec"])) if f.get("rec") and not f.get("smethod") else None
    outs = [(w, o) for w, o in I.run(f, this=this, args=args) if possible(w.facts)]
    return outs, I


def possible(facts):
    """No value equals two different numbers."""
    eqs = {}
    for t, v in facts:
        if t.op == "eq" and v:
            a, b = t.a
            if b.op == "lit":
                a, b = b, a
            if a.op == "lit":
                if eqs.setdefault(b, a) != a:
                    return False
    return True


def wrapper_field(p, cls):
    """(field, library class) of a class of the binding."""
    r = p.records.get(cls)
    if not r or cls.startswith("SLAT::"):
        return None
    fs = []
    for f in r.get("fields", []):
        t = f.get("t", "")
        if "shared_ptr<SLAT::" in t:
            fs.append((f["name"], t[t.find("SLAT::"):].rstrip("> ")))
    return fs[0] if len(fs) == 1 else None


class Resolver:
    """Values as the caller sees them: objects of the binding by the library
    object they hold, library objects by how they were made."""

    def __init__(self, p, I, w):
        self.p, self.I, self.w = p, I, w
        self.built = {}
        self.dup = set()
        for e in w.dom or ():
            if e[0] == "built":
                if e[1] in self.built:
                    self.dup.add(e[1])
                self.built[e[1]] = e

    def vals(self, v):
        return frozenset(self.term(x) for x in v)

    def term(self, t):
        if isinstance(t, frozenset):
            return self.vals(t)
        if isinstance(t, tuple):
            return tuple(self.term(x) for x in t)
        if not isinstance(t, T):
            return t
        if t.op == "new":
            wf = wrapper_field(self.p, t.a[1])
            if wf:
                return mk("wrap", self.vals(self.I.read1(self.w, mk("f", t, wf[0]))))
            if t in self.dup:
                return mk("top", "object made in a loop")
            e = self.built.get(t)
            v = self.I.read1(self.w, t)
            if e is not None:
                return mk("built", e[2], *[self.vals(a) for a in e[3]])
            if v and v != S(t):
                return one_or_top(self.vals(v))
            return t
        if t.op == "rec":
            ks = {k for k, _ in t.a[0]}
            for k, v in t.a[0]:
                if isinstance(k, str) and len(ks) == 1 and k in ("dist", "relationship", "function", "wrapper", "loss", "fragility"):
                    return mk("wrap", self.vals(v))
            if len(ks) == 1 and isinstance(next(iter(ks)), str) and next(iter(ks)) in self.fields():
                return mk("wrap", self.vals(t.a[0][0][1]))
        if t.op == "v":
            v = self.I.read1(self.w, t)
            if v and not any(x == t for y in v for x in subterms(y)):
                return one_or_top(self.vals(v))
            e = self.built.get(t)
            return mk("built", e[2], *[self.vals(a) for a in e[3]]) if e and t not in self.dup else t
        return mk(t.op, *(self.term(x) for x in t.a))

    def fields(self):
        r = getattr(self.p, "_wfields", None)
        if r is None:
            r = self.p._wfields = {x[0] for x in (wrapper_field(self.p, q) for q in self.p.records) if x}
        return r


def one_or_top(v):
    return next(iter(v)) if len(v) == 1 else mk("top", "several values")


def norm_calls(t):
    """A cached calculation is asked like a method."""
    if isinstance(t, frozenset):
        return frozenset(norm_calls(x) for x in t)
    if isinstance(t, tuple):
        return tuple(norm_calls(x) for x in t)
    if not isinstance(t, T):
        return t
    a = tuple(norm_calls(x) for x in t.a)
    if t.op == "m":
        q = last(a[0])
        if q == "operator()" and len(a) > 1 and len(a[1]) == 1:
            o = next(iter(a[1]))
            if o.op == "f":
                return mk("m", o.a[1], S(o.a[0]), *a[2:])
        return mk("m", q, *a[1:])
    return mk(t.op, *a)


def libcalls(t):
    return {x for x in subterms(t) if isinstance(x, T) and x.op == "m"}


def judge_value(c, rule, at, what, outs, p, I, want, kind="term", ok=None):
    """On every returning path the value is one of want(facts) (terms with
    wrap/built); None: not specified."""
    bad = und = None
    n = 0
    for w, o in outs:
        if o != "return":
            continue
        ws = want(Facts(w.facts))
        if ws is None:
            continue
        ws = ws if isinstance(ws, list) else [ws]
        ws = [norm_calls(term(x)) for x in ws]
        n += 1
        R = Resolver(p, I, w)
        vs = norm_calls(R.vals(w.ret or frozenset()))
        if not vs:
            und = und or "no value"
            continue
        for v in vs:
            r, d = equal(v, ws, w, I, kind)
            if r is False and len(vs) == 1:
                bad = bad or d
            elif r is not True:
                und = und or d
    c.ob(rule, at, what, False if bad else None if und or not n else True, bad or und or "")


def equal(v, ws, w, I, kind):
    if v in ws:
        return True, ""
    if kind == "num":
        z = zeros(w.facts)
        voc = {last(x.a[0]) for y in ws for x in subterms(y) if x.op == "m"} | {last(x.a[0]) for x in subterms(v) if x.op == "m"}
        r, d = agree("num", v, E(ws[0]), w.facts, z or set(), voc, I)
        if r is True:
            return True, ""
        if r is None:
            return None, d
    want = ws[0]
    text = "%s, specified: %s" % (show(v)[:200], show(want)[:200])
    return (False if definite(v, ws) else None), text


OPS = {"m", "f", "param", "lit", "wrap", "built", "bin", "un", "obj", "new", "idx", "size", "phi", "eq", "isnull", "first", "second", "rec", "null",
       "sized", "dflt", "lst", "nan", "str", "enum", "not", "data"}


def definite(v, ws):
    """The value is written in the same words: it is another one. A value of
    several library calls may be another way of saying the same."""
    for x in subterms(v):
        if x.op in ("ext",):
            if last(x.a[0]) not in MATH:
                return False
            continue
        if x.op not in OPS:
            return False
    a, b = libcalls(v), set().union(*[libcalls(x) for x in ws]) if ws else set()
    return len(a) <= max(1, len(b))
