"""Results remembered by hand: variables and fields a query both fills from
the object's data and answers from."""
from .interp import *
from . import model
from .model import first_field

def short(q): return q.replace("SLAT::", "")


NOT = ("SLAT::Caching", "SLAT::Context", "SLAT::TempContext", "SLAT::Replaceable", "SLAT::Integration")


class Memo(model.Reads):
    def __init__(self, this, caches, slots):
        super().__init__(this, caches, slots)
        self.stores = {}      # ('g', location) | ('f', field) -> [(terms, at)]

    def keep(self, locs, vals, ev):
        for l in locs or ():
            r = root(l)
            k = ("g", r) if r.op == "g" else ("f", first_field(l, self.this)) if r == self.this else None
            if k is not None and k[1] is not None and k[1] not in self.caches:
                self.stores.setdefault(k, []).append((frozenset(t for v in vals for t in v), ev.at()))

    def on(self, w, ev):
        d = ev.d
        if ev.k in ("write", "assign"):
            self.keep(d.get("locs"), [d.get("vals") or frozenset()], ev)
        elif ev.k == "cmod":
            self.keep(d.get("cont"), [v for v in d.get("vals") or () if isinstance(v, frozenset)], ev)
        return super().on(w, ev)


def derived(vs, this, but):
    """The value is calculated from the object's data, other than field `but`."""
    for t in vs:
        for x in subterms(t):
            if isinstance(x, T) and x.op in ("f", "idx") and root(x) == this and first_field(x, this) not in but:
                return True
            if isinstance(x, T) and x.op == "m" and any(y == this for y in subterms(x.a[1:])):
                return True
    return False


def runs(m, cls, i):
    """(what, function, client, outcomes) of every query, and calculation of a cache."""
    p = m.p
    this = model.this_term(cls)
    caches = m.caches.get(cls, {})
    for f in m.methods(cls, public=False):
        if f.get("ret") == "void" or f.get("static"):
            continue
        cl = Memo(this, caches, ())
        I = Interp(p, cl)
        yield f["q"], f, cl, I.run(f, this=S(this), world=World()), I
    if i is not None:
        for k, clos in sorted(i.cacheclo.items()):
            for clo in sorted(clos, key=show):
                cl = Memo(this, caches, ())
                I = Interp(p, cl)
                ctor, f = i.clofn[clo], p.funcs[clo.a[0]]
                yield "%s::%s" % (cls, k), f, cl, model.invoke_closure(I, ctor, World(), clo, [S(mk("param", q["name"] or "x")) for q in f.get("params", [])]), I


def found(m):
    """[(class, ClassInfo or None, what, function, kind, name, site, fields read, fields written)]"""
    if hasattr(m, "_memos"):
        return m._memos
    out, n = [], 0
    for cls in sorted(m.p.records):
        if not cls.startswith("SLAT::") or "<" in cls or cls.startswith(NOT):
            continue
        i = model.info(m, cls) if cls in m.clients else None
        try:
            for what, f, cl, outs, I in runs(m, cls, i):
                n += 1
                rets = [t for w, o in outs if o == "return" for t in (w.ret or ())]
                rd = {(("g", root(x)) if root(x).op == "g" else ("f", first_field(x, cl.this))) for t in rets for x in subterms(t) if isinstance(x, T) and x.op in ("g", "f", "idx")}
                for k, vs in cl.stores.items():
                    if k in rd and any(derived(v, cl.this, {k[1]}) for v, at in vs):
                        at = next(at for v, at in vs if derived(v, cl.this, {k[1]}))
                        out.append((cls, i, what, f, k[0], k[1], at, set(cl.reads), {x[1] for x in cl.stores if x[0] == "f"}))
        except TooBig:
            continue
    m._memos = (out, n)
    return m._memos


def judge(c, m, rule):
    out, n = found(m)
    c.count("queries_searched_for_results_kept_by_hand", n)
    for cls, i, what, f, kind, name, at, reads, mine in out:
        tag = "%s: %s" % (short(what), show(name).split("::")[-1].rstrip(")") if kind == "g" else name)
        if kind == "g":
            c.ob(rule, at, tag, False, "a result is kept in a variable that no change of the object's data, and no other object, resets")
            continue
        if i is None:
            c.ob(rule, at, tag, True)
            continue
        bad = None
        from .checks.c02 import first_slot
        data = reads - mine
        for r in i.regs():
            fs = {first_slot(i, h) for h in i.held(r)} - {None}
            if not fs & data:
                continue
            for which in ("changed", "replaced"):
                outs, nv, _ = i.run_callback(r, which)
                if outs and any(o == "return" and not any(y.a[0] in mine for y in model.marks(w, "wrote")) for w, o in outs):
                    bad = bad or "the '%s' callback of %s (%s) leaves it" % (which, "/".join(sorted(fs)), r.at)
        for g, cl, outs in i.method_runs():
            if g["id"] == f["id"]:
                continue
            for w, o in outs:
                wr = {x.a[0] for x in model.marks(w, "wrote")}
                if o == "return" and wr & data and not wr & mine:
                    bad = bad or "%s assigns %s and leaves it" % (short(g["q"]), ", ".join(sorted(wr & data)))
        c.ob(rule, at, tag, bad is None, "a result is kept in '%s', and %s" % (name, bad))
