"""C02: a change to an input reaches every result that depends on it."""
from .common import *
from .. import memo

RULE = ("From the subscriptions made by constructors and members (found by abstract interpretation): (1) every "
        "collaborator an object keeps is subscribed to on every path on which it is not null; (2) the 'changed' "
        "callback clears, on every path, every result cache whose calculation reads through that collaborator; "
        "(3) the callback and every member that changes what queries read notify the object's own dependents on "
        "every path (for classes other objects depend on); (4) notify_change calls every registered callback; "
        "(5) subscribing stores each callback under its own name and a fresh id; (6) data derived from a collaborator "
        "and kept in a field is refreshed by its callbacks.")


def run(thorough=False):
    c = Check("C02", RULE, thorough)
    m = the_model()
    p = m.p
    for cls in m.clients:
        if cls not in m.slots and cls not in m.bags:
            continue
        i = model.info(m, cls)
        slots = m.slots.get(cls, {})
        # (1) subscriptions of constructors
        for ctor, w in i.ctor_worlds:
            subscribed(c, i, ctor, w, {s: i.value(w, s) for s in slots})
            snapshots(c, i, ctor, w)
        for f, cl, outs in i.method_runs():
            for w, o in outs:
                if o != "return":
                    continue
                wr = {x.a[0] for x in model.marks(w, "wrote")}
                subscribed(c, i, f, w, {s: i.value(w, s) for s in slots if s in wr})
                for b in m.bags.get(cls, {}):
                    if b in wr:
                        bag_subscribed(c, i, f, w, b)
            # (3) members notify
            if m.has_dependents(cls):
                obs = i.queries()
                for w, o in outs:
                    wr = {x.a[0] for x in model.marks(w, "wrote")} & set(obs)
                    if wr:
                        c.ob("a member that changes what queries read notifies dependents", where(f),
                             "%s / %s" % (sig(f), ", ".join(sorted(wr))), bool(model.marks(w, "notified")) or o == "throw",
                             "assigns %s but can return without notifying" % ", ".join(sorted(wr)))
        # (2)(3) callbacks
        rs = i.readsets()
        for r in i.regs():
            held = i.held(r)
            fields = {first_slot(i, h) for h in held} - {None}
            if not held:
                c.ob("a subscription is for a collaborator the object keeps", r.at, short(cls), None, "subscribed object is not kept in a field")
                continue
            for which in ("changed", "replaced"):
                outs, nv, _ = i.run_callback(r, which)
                if not outs:
                    c.ob("the callback is a lambda", r.at, "%s %s" % (short(cls), which), None)
                    continue
                passes_on(c, i, r, which, outs, fields, rs)
        c.functions |= i.funcs
    memo.judge(c, m, "no result is kept other than in a cache that is cleared")
    registry(c, m)
    c.need("every collaborator kept is subscribed to", 10)
    c.need("a collaborator's change clears the results calculated from it", 20)
    c.need("a collaborator's change is passed on to dependents", 10)
    c.need("notify_change calls every callback", 3)
    return c.finish()


def passes_on(c, i, r, which, outs, fields, rs):
    """The results calculated from the collaborator are cleared, and dependents told."""
    m, cls = i.m, i.cls
    for k, rd in rs.items():
        need = fields & set(rd)
        if not need:
            continue
        bad = [w for w, o in outs if o == "return" and not any(x.a[0] == k for x in model.marks(w, "cache") if x.a[1] == "cleared")]
        c.ob("a collaborator's change clears the results calculated from it", r.at,
             "%s: '%s' callback of %s / %s" % (short(cls), which, "/".join(sorted(need)), k), not bad,
             "the calculation of %s reads %s at %s, and the callback can end without clearing %s" % (
                 k, sorted(need)[0], rd[sorted(need)[0]], k))
    if m.has_dependents(cls):
        bad = [w for w, o in outs if o == "return" and not model.marks(w, "notified")]
        c.ob("a collaborator's change is passed on to dependents", r.at,
             "%s: '%s' callback of %s" % (short(cls), which, "/".join(sorted(fields))), not bad,
             "the callback can end without notify_change()")


def first_slot(i, h):
    """The field of the object under which location h is kept."""
    f = model.first_field(h, i.this)
    if f:
        return f
    for b in i.m.bags.get(i.cls, {}):
        return b
    return None


def nullness(w, v):
    if v == NULL:
        return True
    for t, b in w.facts:
        if t.op == "isnull" and t.a[0] == v:
            return b
    return None


def subscribed(c, i, f, w, vals):
    regs = model.marks(w, "reg")
    rems = model.marks(w, "rem")
    for s, v in vals.items():
        v = frozenset(t for t in v if nullness(w, t) is not True)
        if not v:
            continue
        if v == S(mk("f", i.this, s)):
            continue
        ok = any(r.a[0] & v for r in regs) and all(any(t in r.a[0] for r in regs) for t in v)
        c.ob("every collaborator kept is subscribed to", where(f), "%s / %s" % (sig(f), s), ok,
             "%s is kept in '%s' without add_callbacks()" % (show(v), s))


def bag_subscribed(c, i, f, w, bag):
    """Elements added to a container of collaborators are subscribed to."""
    loc = mk("f", i.this, bag)
    els = w.store.get(mk("idx", loc, STAR))
    if not els:
        return
    for el in els:
        if el.op != "new":
            continue
        vals = set()
        for l, v in w.store.items():
            if l.op == "f" and root(l) == el and isinstance(v, frozenset):
                vals |= v
        regs = model.marks(w, "reg")
        c.ob("every collaborator kept is subscribed to", where(f), "%s / element of %s" % (sig(f), bag),
             any(r.a[0] & vals for r in regs), "an object is added to '%s' without add_callbacks()" % bag)


def snapshots(c, i, ctor, w):
    """Data computed from a collaborator and kept in a field (rule 6)."""
    regs = model.marks(w, "reg")
    q = i.queries()
    for l, v in list(w.store.items()):
        if l.op != "f" or l.a[0] != i.this or not isinstance(v, frozenset) or l.a[1] not in q:
            continue
        if l.a[1] in i.m.slots.get(i.cls, {}) or l.a[1] in i.caches:
            continue
        for r in regs:
            if not any(x.op == "m" and any(y in r.a[0] for y in subterms(x.a[1:])) for t in v for x in subterms(t)):
                continue
            if any(t.op == "clo" for t in v):
                continue
            R = model.Reg(ctor, w, r)
            for which in ("changed", "replaced"):
                outs, nv, _ = i.run_callback(R, which)
                bad = [x for x, o in outs if o == "return" and not any(y.a[0] == l.a[1] for y in model.marks(x, "wrote"))]
                c.ob("data derived from a collaborator is refreshed", R.at,
                     "%s: '%s' callback / %s" % (short(i.cls), which, l.a[1]), not bad,
                     "field '%s' keeps a result of %s" % (l.a[1], show(r.a[0])))


class EachClient(Client):
    """Per-iteration obligation inside loops over a container of callbacks:
    a loop in which the callback is called must call it on every iteration."""
    merge = "esp"

    def __init__(self, want):
        self.want = want
        self.hits = []
        self.hitloops = set()
        self._miss = []
        self._brk = []
        self.I = None

    @property
    def miss(self):
        return [x for x in self._miss if x[0].d["node"]["l"] in self.hitloops]

    @property
    def brk(self):
        return [x for x in self._brk if x[0].d["node"]["l"] in self.hitloops]

    def policy(self, e, fn, obj):
        return "inline"

    def st(self, w, v):
        w = w.copy()
        w.dom = v
        return [w]

    def on(self, w, ev):
        if ev.k == "icall":
            fn = ev.d["fn"]
            if fn.op == "f" and fn.a[1] == self.want:
                self.hits.append((ev.at(), fn, ev.d["args"]))
                return self.st(w, (w.dom or frozenset()) | {("hit", self.I.sites[-1:]), "ever"})
        elif ev.k == "loop":
            return self.st(w, (w.dom or frozenset()) | {"looped"})
        elif ev.k in ("iterend", "loopbreak"):
            hit = ("hit", self.I.sites[-1:])
            if hit in (w.dom or ()):
                self.hitloops.add(ev.d["node"]["l"])
            elif ev.k == "iterend" and self.I.mute == 0:
                self._miss.append((ev, w))
            if ev.k == "loopbreak" and self.I.mute == 0:
                self._brk.append((ev, w))
            return self.st(w, (w.dom or frozenset()) - {hit})
        return None


def registry(c, m):
    p = m.p
    for q in sorted(p.records):
        if not q.startswith(model.REPL) or "::" in q.split(">")[-1]:
            continue
        T_ = q[len(model.REPL):-1]
        this = mk("obj", q)
        fs = p.fn(q + "::notify_change")
        for f in fs:
            cl = EachClient("changed_cb")
            I = Interp(p, cl)
            cl.I = I
            outs = I.run(f, this=S(this), world=World(dom=frozenset()))
            where_ = where(f)
            nm = short(T_)
            ok = bool(cl.hits)
            det = "no registered callback is ever called"
            if ok and cl.miss:
                real = [x for x in cl.miss]
                ok = not real
                det = "an iteration over the subscriptions can skip the callback (loop at %s)" % real[0][0].at() if real else ""
            if ok and cl.brk:
                ok, det = False, "the loop over the subscriptions can end early (%s)" % cl.brk[0][0].at()
            if ok:
                for w, o in outs:
                    if "looped" not in (w.dom or ()) and not any(t.op == "eq" and b and any(x.op == "size" for x in t.a if isinstance(x, T)) for t, b in w.facts) and "ever" not in (w.dom or ()):
                        ok, det = False, "can return without visiting the subscriptions"
            c.ob("notify_change calls every callback", where_, nm, ok, det)
            c.functions |= I.inlined
        for f in p.fn(q + "::add_callbacks"):
            cl = Client()
            I = Interp(p, cl)
            names = [x["name"] for x in f["params"]]
            outs = I.run(f, this=S(this))
            for w, o in outs:
                if o != "return":
                    continue
                got = {}
                key = None
                for l, v in w.store.items():
                    if l.op == "f" and l.a[1] in ("changed_cb", "replace_cb"):
                        got[l.a[1]] = v
                        key = l.a[0]
                    if l.op == "idx":
                        for t in v if isinstance(v, frozenset) else ():
                            if t.op == "rec":
                                for k, x in t.a[0]:
                                    got[k] = x
                                    key = l
                want = {"changed_cb": S(mk("param", names[0])), "replace_cb": S(mk("param", names[1]))}
                if not got:
                    c.ob("subscribing keeps the callbacks it is given", where(f), short(T_), None, "storage form not recognised")
                else:
                    ok = all(got.get(k) == v for k, v in want.items())
                    c.ob("subscribing keeps the callbacks it is given", where(f), short(T_), ok, "stores %s" % {k: show(v) for k, v in got.items()})
                if key is not None and w.ret:
                    ks = key.a[1] if key.op == "idx" else None
                    if ks is not None and ks is not STAR:
                        c.ob("subscribing returns the id of the subscription", where(f), short(T_), w.ret == S(ks),
                             "keeps the callbacks under %s but returns %s" % (show(ks), show(w.ret)))
