"""C04: objects can be destroyed in any order."""
from .common import *
from .c01 import names
from . import c30

RULE = ("From the subscriptions found by abstract interpretation: the id returned by add_callbacks is kept next to the "
        "collaborator; the destructor chain, interpreted, ends every path with the subscription of every collaborator "
        "that is not null removed, under the id kept for it (for containers: for every element); a member which drops "
        "or replaces a kept collaborator, or takes an element out of the container, removes that subscription first; "
        "classes whose callbacks refer to the object itself are never copied; the destructor of a cache takes it off the list of caches on every path; no kept callable refers to a variable "
        "of the function that made it; destructors are reached through the type objects are deleted as.")


class Life(model.Effects):
    def __init__(self, this, bags):
        super().__init__(this)
        self.bags = bags

    def on(self, w, ev):
        d = ev.d
        if ev.k == "loop" and d.get("cont"):
            return self.set(w, [mk("looped", l) for l in d["cont"]])
        if ev.k == "cmod" and d.get("n") in ("erase", "clear", "pop_back", "pop_front", "remove", "resize"):
            for l in d["cont"]:
                if l.op == "f" and l.a[0] == self.this and l.a[1] in self.bags:
                    return self.set(w, [mk("erased", l.a[1], d["n"]), mk("wrote", l.a[1]), mk("gone", l)])
        # what is looked up in the container after that is another element
        if ev.k == "index" and any(mk("gone", l) in (w.dom or ()) for l in d["cont"]):
            return self.set(w, [mk("other", l) for l in d["cont"]])
        if ev.k in ("iterend", "loopbreak") and any(x.op in ("gone", "other") for x in w.dom or ()):
            w = w.copy()
            w.dom = frozenset(x for x in w.dom if x.op not in ("gone", "other"))
            return [w]
        if ev.k == "opaque" and d.get("n") == "remove_callbacks" and any(mk("other", mk("f", self.this, model.first_field(t, self.this))) in (w.dom or ())
                                                                        for v in d.get("vals") or () for t in (v if isinstance(v, frozenset) else ()) if model.first_field(t, self.this)):
            return [w]
        if ev.k == "assign":
            for l in d["locs"]:
                if l.op == "f" and l.a[0] == self.this and l.a[1] in self.bags:
                    return self.set(w, [mk("erased", l.a[1], "assignment"), mk("wrote", l.a[1])])
        return super().on(w, ev)


def idloc(i, r, h):
    """Where the id of subscription r is kept."""
    out = []
    for l, v in r.w.store.items():
        if l.op in ("f", "idx") and isinstance(v, frozenset) and v == r.id and root(l).op not in ("param", "g"):
            if root(l) == i.this or i.reachable(r.w, root(l)):
                out.append(l)
    return out


def isnull(w, v):
    for t, b in w.facts:
        if t.op == "isnull" and t.a[0] == v:
            return b
    return None


def sized(w, loc):
    """The path says something about how many elements there are, or has
    been round a loop over them."""
    if any(x.a[0] == loc for x in model.marks(w, "looped")):
        return True
    for t, b in w.facts:
        for x in subterms(t):
            if x.op in ("size", "count") and x.a[0] == loc:
                return True
            if x.op == "iter" and x.a[0] == loc:
                return True
    return False


def dtor_worlds(i):
    p = i.m.p
    cl = Life(i.this, i.m.bags.get(i.cls, {}))
    ws = [World(dom=frozenset())]
    fns = []
    for c in [i.cls] + p.bases(i.cls):
        f = p.dtor_of.get(c)
        if c.startswith(model.REPL) or f is None or "body" not in f:
            continue
        fns.append(f)
        nw = []
        for w in ws:
            I = Interp(p, cl)
            w = w.copy()
            w.ret = None
            nw += [x for x, o in I.run(f, this=S(i.this), world=w) if o == "return"]
            i.funcs |= I.inlined
        ws = nw
    return ws, fns


def run(thorough=False):
    c = Check("C04", RULE, thorough)
    m = the_model()
    p = m.p
    subscribers = set()
    for cls in m.clients:
        if cls not in m.slots and cls not in m.bags:
            continue
        i = model.info(m, cls)
        regs = i.regs()
        if not regs:
            continue
        subscribers.add(cls)
        pairs = {}      # held scalar location -> set of id locations
        bags = {}       # bag field -> [(reg, held, ids)]
        for r in regs:
            ids = idloc(i, r, None)
            held = i.held(r)
            c.count("subscriptions")
            c.ob("the id of a subscription is kept", r.at, "%s: %s" % (short(cls), names(i, r)), bool(ids),
                 "the result of add_callbacks() is not kept in the object, so the subscription can never be removed")
            for h in held:
                if root(h) == i.this and h.op == "f" and h.a[0] == i.this:
                    pairs.setdefault(h, set()).update(l for l in ids if root(l) == i.this)
                else:
                    for b in m.bags.get(cls, {}):
                        bags.setdefault(b, []).append((r, h, ids))
        ws, dfns = dtor_worlds(i)
        at = where(dfns[0]) if dfns else regs[0].at
        for h, ids in pairs.items():
            ok, det = True, ""
            for w in ws:
                if isnull(w, h) is True:
                    continue
                rems = [x for x in model.marks(w, "rem") if x.a[0] == S(h)]
                if not rems:
                    ok, det = False, "an object can be destroyed leaving its callbacks registered with '%s'" % h.a[1]
                elif ids and not any(x.a[1] == S(l) for x in rems for l in ids):
                    v = [show(x.a[1]) for x in rems]
                    ok, det = False, "the subscription to '%s' is removed under %s instead of %s" % (h.a[1], ", ".join(v), ", ".join(show(l) for l in ids))
            c.ob("the destructor removes every subscription", at, "%s / %s" % (short(cls), h.a[1]), ok, det)
        for b, lst in bags.items():
            loc = mk("f", i.this, b)
            idf = {l.a[1] for r, h, ids in lst for l in ids if l.op == "f"}
            objf = {h.a[1] for r, h, ids in lst if h.op == "f"}
            any_, ok, det = False, True, ""
            for w in ws:
                rems = [x for x in model.marks(w, "rem") if all(model.first_field(t, i.this) == b for t in x.a[0])]
                any_ = any_ or bool(rems)
                for x in rems:
                    t = next(iter(x.a[0]))
                    y = next(iter(x.a[1]))
                    if t.op == "f" and y.op == "f" and (t.a[1] not in objf or y.a[1] not in idf or t.a[0] != y.a[0]):
                        ok, det = False, "an element's subscription is removed with %s under %s" % (show(t), show(y))
                if not rems and not sized(w, loc):
                    ok, det = False, "an object can be destroyed without removing its callbacks from the elements of '%s'" % b
            if not any_:
                ok, det = False, "an object is destroyed leaving its callbacks registered with the elements of '%s'" % b
            c.ob("the destructor removes every subscription", at, "%s / elements of %s" % (short(cls), b), ok, det)
            for f in dfns:
                everyelem(c, i, f, b)
        # members which drop a collaborator
        for f in m.methods(cls, public=True):
            cl = Life(i.this, m.bags.get(cls, {}))
            I = Interp(p, cl)
            for w, o in I.run(f, this=S(i.this), world=World(dom=frozenset())):
                if o != "return":
                    continue
                wr = {x.a[0] for x in model.marks(w, "wrote")}
                for h, ids in pairs.items():
                    new = [x for x in model.marks(w, "reg")]
                    idw = [l for l in ids if l.a[1] in wr]
                    if h.a[1] in wr or idw:
                        rem = [x for x in model.marks(w, "rem") if x.a[0] == S(h) and (not ids or any(x.a[1] == S(l) for l in ids))]
                        c.ob("a member that drops a collaborator removes its subscription first", where(f),
                             "%s / %s" % (sig(f), h.a[1]), bool(rem) or isnull(w, h) is True,
                             "'%s' (or the id of its subscription) is assigned while the old subscription is in force" % h.a[1])
                for x in model.marks(w, "erased"):
                    b = x.a[0]
                    loc = mk("f", i.this, b)
                    rem = [y for y in model.marks(w, "rem") if any(model.first_field(t, i.this) == b for z in y.a[:2] for t in z)]
                    idf = {l.a[1] for r, h, ids in bags.get(b, []) for l in ids if l.op == "f"}
                    good = [y for y in rem if any(t.op == "f" and t.a[1] in idf for t in y.a[1])] if idf else rem
                    okk = bool(good)
                    if x.a[1] in ("clear", "assignment") and not okk and sized(w, loc):
                        okk = None
                    c.ob("a member that drops a collaborator removes its subscription first", where(f),
                         "%s / element of %s" % (sig(f), b), okk,
                         "an element leaves '%s' (%s) while its subscription is in force" % (b, x.a[1]))
            c.functions |= I.inlined
        c.functions |= i.funcs
        captures(c, i)
        deletion(c, m, cls)
    copies(c, m, subscribers)
    for q in sorted(p.records):
        if q.startswith(model.REPL) and "::" not in q.split(">")[-1]:
            removal(c, m, q)
    for rec in sorted({f["rec"] for f in p.funcs.values() if (f.get("rec") or "").startswith(c30.NS) and "body" in f and f["name"].startswith("operator(")}):
        c30.deregistration(c, p, rec, next((f for f in p.funcs.values() if f.get("rec") == rec and "body" in f and f.get("k") == "dtor"), None),
                           "a destroyed cache is no longer in the list of caches")
    c.need("the destructor removes every subscription", 6)
    c.need("the id of a subscription is kept", 6)
    return c.finish()


class ElemClient(model.GraphClient):
    merge = "esp"

    def __init__(self, this, bag):
        super().__init__(this)
        self.bag = bag
        self.hit, self._miss, self._brk, self.over = [], [], [], set()
        self.I = None

    def on(self, w, ev):
        d = ev.d
        if ev.k == "opaque" and d.get("n") == "remove_callbacks" and any(model.first_field(t, self.this) == self.bag for t in d["objs"]):
            self.hit.append(ev.at())
            w = w.copy()
            w.dom = (w.dom or frozenset()) | {self.I.sites[-1:]}
            self.over.add(self.I.sites[-1:])
            return [w]
        if ev.k in ("iterend", "loopbreak"):
            at = self.I.sites[-1:]
            if self.I.mute == 0 and ev.k == "iterend" and at not in (w.dom or ()):
                self._miss.append((at, ev))
            if self.I.mute == 0 and ev.k == "loopbreak":
                self._brk.append((at, ev))
            w = w.copy()
            w.dom = (w.dom or frozenset()) - {at}
            return [w]
        return None

    @property
    def miss(self):
        return [e for at, e in self._miss if at in self.over]

    @property
    def brk(self):
        return [e for at, e in self._brk if at in self.over]


def everyelem(c, i, f, b):
    cl = ElemClient(i.this, b)
    I = Interp(i.m.p, cl)
    cl.I = I
    I.run(f, this=S(i.this), world=World(dom=frozenset()))
    if not cl.hit:
        return
    ok, det = True, ""
    if cl.miss:
        ok, det = False, "the loop at %s can skip an element" % cl.miss[0].at()
    elif cl.brk:
        ok, det = False, "the loop can end early at %s" % cl.brk[0].at()
    else:
        for ph, ev in I.phi_entry.items():
            if ph.a[1].op == "v" and I.phi_back.get(ph) and any(x.op == "phi" for x in subterms(tuple(I.phi_back[ph]))):
                if ev != S(mk("lit", 0)) and all(t.op == "lit" and isinstance(t.a[0], (int, float)) for t in ev):
                    ok, det = False, "the loop over the elements starts at %s" % show(ev)
    c.ob("the destructor visits every element", where(f), "%s / %s" % (short(i.cls), b), ok, det)


def captures(c, i):
    """Kept callables do not refer to variables of the function that made them."""
    seen = set()
    def look(fn, t, what):
        if t in seen or t.op != "clo":
            return
        seen.add(t)
        bad = [cap[3] for cap in t.a[1] if cap[1] == "ref" and all(root(x).op in ("v", "param") for x in (cap[2] if isinstance(cap[2], frozenset) else [cap[2]]))]
        c.ob("no kept callable refers to a variable that is gone when it runs", where(fn), "%s / %s" % (sig(fn), what), not bad,
             "captures %s by reference" % ", ".join(bad))
    for k, clos in i.cacheclo.items():
        for t in clos:
            look(i.clofn[t], t, "calculation of " + k)
    for r in i.regs():
        for v in (r.changed, r.replaced):
            for t in v:
                look(r.fn, t, "callbacks of " + names(i, r))


def copies(c, m, subs):
    p = m.p
    n = 0
    for f in p.funcs.values():
        for part in ("body", "inits"):
            if part not in f:
                continue
            for e in walk(f[part]):
                if e.get("k") == "ctor" and e.get("copy") and e.get("cls") in subs:
                    n += 1
                    c.ob("objects whose callbacks refer to themselves are not copied", "%s:%s" % (f["file"], e.get("l")),
                         "%s copies a %s" % (short(f["q"]), short(e["cls"])), False,
                         "the copy's subscriptions would change the original")
    c.ob("objects whose callbacks refer to themselves are not copied", "whole program", "no copies of %s" % ", ".join(sorted(short(s) for s in subs)), n == 0 or None)


def deletion(c, m, cls):
    """An object destroyed through a base pointer runs its own destructor."""
    p = m.p
    rec = p.records[cls]
    if not rec.get("dtor_user"):
        return
    for b in p.bases(cls):
        if b.startswith(model.REPL) or b not in p.records:
            continue
        # objects are created by make_shared or shared_ptr(new ...): these keep
        # the right deleter; a plain delete of a base pointer does not
        for f in p.funcs.values():
            if "body" not in f:
                continue
            for e in walk(f["body"]):
                if e.get("k") == "delete" and (e.get("e") or {}).get("t", "").replace(" *", "").strip() == b:
                    c.ob("destructors are reached", "%s:%s" % (f["file"], e.get("l")), short(cls), bool(p.records[b].get("dtor_virtual")),
                         "deletes a %s through a pointer to %s, whose destructor is not virtual" % (short(cls), short(b)))


def absent(w, par, this):
    """The path has found that there is no such subscription."""
    for t, b in w.facts:
        subs = list(subterms(t))
        if par in subs or any(x.op in ("iter", "key") for x in subs):
            return True
        if t.op == "top" and any("itcmp" in str(x) for x in t.a):
            return True
        if hollow(t, b) and any(root(x) == this for x in subs):
            return True
    return False


def removal(c, m, q):
    p = m.p
    this = mk("obj", q)
    for f in p.fn(q + "::remove_callbacks"):
        par = mk("param", f["params"][0]["name"])
        seen = []

        class R(Client):
            def on(self, w, ev):
                if ev.k == "cmod" and any(root(l) == this for l in ev.d["cont"]):
                    seen.append((ev.d["n"], ev.d.get("vals"), ev.at()))
                    w = w.copy()
                    w.dom = "removed"
                    return [w]
        I = Interp(p, R())
        outs = I.run(f, this=S(this), world=World())
        ok, det = True, ""
        if not seen:
            ok, det = False, "nothing is removed"
        elif any(w.dom != "removed" and o == "return" and not absent(w, par, this) for w, o in outs):
            ok, det = False, "can return without removing the subscription"
        elif any(n == "clear" for n, v, a in seen):
            ok, det = False, "removes other objects' subscriptions"
        elif any(n == "erase" and v and not any(par in subterms(t) for t in v[0]) for n, v, a in seen):
            ok = None
        c.ob("unsubscribing removes the subscription with the given id, and no other", where(f), short(q[len(model.REPL):-1]), ok, det)
        c.functions |= I.inlined


def walk(s):
    st = [s]
    while st:
        x = st.pop()
        if isinstance(x, dict):
            yield x
            st.extend(x.values())
        elif isinstance(x, list):
            st.extend(x)
