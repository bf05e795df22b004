"""C21: no operation breaks because an optional part of the model is missing."""
from .common import *

RULE = ("Which parts of an object are optional is read from the types of its fields (the losses of a component group, the collapse "
        "and demolition functions of an intensity measure, the intensity measure of a structure without components). Every "
        "constructor, destructor, operation, kept calculation, callback and output operator is interpreted path by path: at each place "
        "where an optional part is followed, the path must have found it there, or (for a structure) have found that there are "
        "components; a component is only ever added together with its intensity measure.")

THERE = "an optional part is followed only where it is there"
TOGETHER = "there are no components without their intensity measure"

OPTIONAL = [("SLAT::CompGroup", "LossFn"), ("SLAT::IM", "LogNormalDist"), ("SLAT::Structure", "IM")]
PARTS = {("SLAT::Structure", "IM"): "CompGroup"}     # what the part comes with


def points_to(t, cls):
    t = (t or "").replace("SLAT::", "").replace("std::", "").replace("const ", "").replace(" ", "")
    return t.startswith("shared_ptr<%s>" % cls)


def holds(t, cls):
    t = (t or "").replace("SLAT::", "")
    return cls in t and ("vector<" in t or "list<" in t or "deque<" in t or "map<" in t or "set<" in t)


class Follow(model.GraphClient):
    merge = "paths"
    max_worlds = 3000

    def __init__(self, p, this, fields, params, bags):
        super().__init__(this)
        self.p = p
        self.fields, self.params, self.bags = fields, params, bags
        self.seen = {}      # (at, term) -> None or text
        self.grown = {}
        self.I = None
        self.cleared = self.leaving = False

    def optional(self, t):
        return t.op == "f" and t.a[1] in self.fields and root(t) == self.this and t.a[0] == self.this or t in self.params

    def there(self, w, t):
        if w.fact(mk("isnull", t)) is False:
            return True
        return t.op == "f" and self.some(w)

    def some(self, w):
        """is it known that there are components?"""
        for t, b in w.facts:
            if t.op == "eq" and not b and self.counts(t.a):
                return True
            if t.op == "lt" and (b and self.count(t.a[1]) or not b and self.count(t.a[0]) and self.positive(t.a[1])):
                return True
            if t.op == "le" and (b and self.count(t.a[1]) and self.positive(t.a[0]) or not b and self.count(t.a[0])):
                return True
            if t.op == "empty" and not b and t.a[0] in self.bags:
                return True
            if self.count(t) and b:
                return True
        return False

    def none(self, w):
        """is it known that there are no components?"""
        for t, b in w.facts:
            if t.op == "eq" and b and self.counts(t.a) or t.op == "empty" and b and t.a[0] in self.bags:
                return True
            if t.op == "lt" and not b and self.count(t.a[1]) or self.count(t) and not b:
                return True
        return False

    def positive(self, t):
        return t.op == "lit" and isinstance(t.a[0], (int, float)) and t.a[0] > 0

    def count(self, t):
        return t.op in ("size", "count") and t.a[0] in self.bags

    def counts(self, a):
        return any(self.count(x) for x in a) and any(x.op == "lit" and x.a[0] == 0 for x in a)

    def on(self, w, ev):
        if self.I is not None and self.I.mute:
            return None
        if ev.k == "deref":
            for t in ev.d["ptr"]:
                if self.optional(t):
                    key = (ev.at(), show(t))
                    if self.there(w, t):
                        self.seen.setdefault(key, None)
                    else:
                        self.seen[key] = "%s is followed, which may be missing" % show(t)
        elif ev.k == "cmod" and ev.d.get("n") in ("push_back", "emplace_back", "insert", "emplace", "push_front") or ev.k == "index" and ev.d.get("ismap"):
            for b in ev.d["cont"]:
                if b in self.bags:
                    for f in self.fields:
                        l = mk("f", self.this, f)
                        v = w.store.get(l)
                        bad = None
                        if v is None:
                            bad = None if self.there(w, l) else "%s may be missing" % show(l)
                        else:
                            for t in v:
                                if w.fact(mk("isnull", t)) is True or t is NULL:
                                    bad = "%s is missing" % show(l)
                        self.grown.setdefault((ev.at(), show(b)), bad)
                        if bad:
                            self.grown[(ev.at(), show(b))] = bad
            if any(b in self.bags for b in ev.d["cont"]) and ev.d.get("n") in ("clear", "swap", "assign", "operator="):
                self.cleared = True
        elif ev.k == "write" and self.bags and not self.leaving:
            for l in ev.d["locs"]:
                if l.op == "f" and l.a[1] in self.fields and l.a[0] == self.this and any(v is NULL for v in ev.d["vals"]):
                    bad = None if self.none(w) else "%s is taken away while there may be components" % show(l)
                    if bad and self.cleared:
                        bad = False
                    self.grown[(ev.at(), show(l))] = self.grown.get((ev.at(), show(l))) or bad
        return None


def run(thorough=False):
    c = Check("C21", RULE, thorough)
    m = the_model()
    p = m.p
    n = 0
    for cls, part in OPTIONAL:
        rec = p.records.get(cls)
        if rec is None:
            c.ob(THERE, cls, short(cls), None, "the class is not there")
            continue
        fields = {f["name"] for f in rec["fields"] if points_to(f.get("t"), part)}
        bags = {f["name"] for f in rec["fields"] if (cls, part) in PARTS and (holds(f.get("t"), PARTS[cls, part]) or "CG_ENTRY" in (f.get("t") or ""))}
        if not fields:
            c.ob(THERE, "%s:%s" % (rec.get("file", ""), rec.get("line", "")), short(cls), None, "the optional part is not kept in a field of its own")
            continue
        guarded_(c, p, m, cls, part, fields, bags)
    c.need(THERE, 20)
    c.need(TOGETHER, 1)
    return c.finish()


def guarded_(c, p, m, cls, part, fields, bags):
    this = mk("obj", cls)

    def go(what, f, start, this_=this):
        bg = {mk("f", this_, b) for b in bags}
        cl = Follow(p, this_, fields, set(), bg)
        try:
            I = cl.I = Interp(p, cl)
            cl.leaving = f["k"] in ("ctor", "dtor")
            k = start(I, cl)
            c.functions.update(I.inlined | {f["id"]})
            c.count("paths", k or 0)
        except TooBig as e:
            c.ob(THERE, where(f), what, None, str(e))
            return
        except RecursionError:
            c.ob(THERE, where(f), what, None, "too deep")
            return
        for (at, t), bad in sorted(cl.seen.items()):
            c.ob(THERE, at, "%s: %s" % (what, t), not bad, bad or "")
        for (at, t), bad in sorted(cl.grown.items()):
            c.ob(TOGETHER, at, "%s: %s" % (what, t), None if bad is False else not bad, bad or "")
        if not cl.seen:
            c.count("operations which follow no optional part")

    def args(f):
        return [S(mk("param", "a%d" % i)) for i in range(len(f["params"]))]

    def plain(f):
        def start(I, cl):
            for i, x in enumerate(f["params"]):
                if f["k"] == "ctor" and points_to(x["t"], part):
                    cl.params.add(mk("param", "a%d" % i))
            return len(I.run(f, this=S(this), args=args(f)))
        return start

    for f in m.ctors(cls):
        go(short(cls) + ": constructor", f, plain(f))
    d = p.dtor_of.get(cls)
    if d is not None and "body" in d:
        go(short(cls) + ": destructor", d, plain(d))
    for f in p.methods_of.get(cls, []):
        if f["k"] in ("ctor", "dtor") or "body" not in f or f.get("implicit") or f.get("defaulted") or f.get("access", 0) != 0:
            continue        # what is not public is seen through its callers
        go(sig(f), f, plain(f))
    inf = model.info(m, cls)
    for field in sorted(inf.cacheclo):
        for clo in sorted(inf.cacheclo[field], key=show):
            ctor, f = inf.clofn[clo], p.funcs.get(clo.a[0])
            if f is None:
                continue

            def start(I, cl, ctor=ctor, f=f, clo=clo):
                return len(model.invoke_closure(I, ctor, World(), clo, args(f)))
            go("%s: the calculation of %s" % (short(cls), field), f, start)
    for r in inf.regs():
        for which, clos in (("changed", r.changed), ("replaced", r.replaced)):
            for clo in sorted(clos, key=show):
                f = p.funcs.get(clo.a[0]) if clo.op == "clo" else None
                if f is None:
                    continue

                def start(I, cl, r=r, clo=clo, f=f):
                    w = r.w.copy()
                    w.dom, w.ret = None, None
                    # what was optional, and found there, stays: nothing takes it away again
                    for x in r.fn["params"]:
                        if r.fn["k"] == "ctor" and points_to(x["t"], part):
                            cl.params.add(mk("param", x["name"]))
                    return len(model.invoke_closure(I, r.fn, w, clo, args(f)))
                go("%s: %s" % (short(cls), "told of a change" if which == "changed" else "told of a replacement"), f, start)
    # output operators and other functions which look inside
    for f in sorted(p.funcs.values(), key=lambda f: f["id"]):
        if f.get("rec") or "body" not in f or f.get("islambda") or f.get("static") or f["file"].endswith("_test.cpp"):
            continue
        for i, x in enumerate(f["params"]):
            t = x["t"].replace("const ", "").replace("SLAT::", "").rstrip("& *")
            if t == cls.replace("SLAT::", "") and x["t"].rstrip().endswith("&") and f["q"].startswith("SLAT::"):
                a = mk("param", "a%d" % i)

                def start(I, cl, f=f):
                    return len(I.run(f, this=None, args=args(f)))
                go(sig(f), f, start, a)
