"""C03: replacing an object moves every dependent to the new object."""
from .common import *
from .c01 import names
from .c02 import EachClient, first_slot, passes_on, subscribed

RULE = ("Each 'replaced' callback (a lambda found at its subscription) is interpreted with a symbolic replacement: on "
        "every path every location in which the subscriber keeps the old object must hold exactly the replacement, "
        "every result cache that reads through it must be cleared and (if anything depends on the subscriber) its own "
        "clients told. Callables kept in fields or caches may not capture a subscribed collaborator by value. "
        "Replaceable::replace is interpreted: every registered 'replaced' callback is invoked with the replacement on "
        "every iteration, the subscriptions are added to the replacement's (never assigned over them) and leave the "
        "old object; ids come from one counter shared by all objects.")


def run(thorough=False):
    c = Check("C03", RULE, thorough)
    m = the_model()
    p = m.p
    for cls in m.clients:
        if cls not in m.slots and cls not in m.bags:
            continue
        i = model.info(m, cls)
        rs = i.readsets()
        for r in i.regs():
            held = i.held(r)
            if not held:
                c.ob("the callback puts the replacement where the old object was kept", r.at, short(cls), None, "subscribed object is not kept")
                continue
            outs, nv, cls_ = i.run_callback(r, "replaced")
            if not outs:
                c.ob("the callback puts the replacement where the old object was kept", r.at, short(cls), None, "callback is not a lambda")
                continue
            nm = names(i, r)
            passes_on(c, i, r, "replaced", outs, {first_slot(i, h) for h in held} - {None}, rs)
            for h in sorted(held, key=show):
                bad = None
                for w, o in outs:
                    if o != "return":
                        continue
                    v = w.store.get(h)
                    if v != S(nv):
                        if v is not None and nv in v and h.op == "idx":
                            continue
                        bad = v
                        break
                c.ob("the callback puts the replacement where the old object was kept", r.at,
                     "%s: replacement of %s / %s" % (short(cls), nm, show(h).replace("this.", "") if root(h) == i.this else "element"),
                     bad is None, "the subscriber can still hold %s afterwards" % (show(bad) if bad is not None else ""))
        # callables which pin a collaborator
        for ctor, w in i.ctor_worlds:
            subscribed(c, i, ctor, w, {s: i.value(w, s) for s in m.slots.get(cls, {})})
            subs = set()
            for x in model.marks(w, "reg"):
                subs |= x.a[0]
            for l, v in w.store.items():
                if not isinstance(v, frozenset) or l.op not in ("f", "idx") or root(l) != i.this:
                    continue
                for t in v:
                    if t.op == "clo":
                        pin(c, i, ctor, l, t, subs)
            for k, clos in i.cacheclo.items():
                for t in clos:
                    pin(c, i, ctor, mk("f", i.this, k), t, subs)
        c.functions |= i.funcs
    registry(c, m)
    c.need("the callback puts the replacement where the old object was kept", 6)
    c.need("replacing tells every client", 2)
    return c.finish()


def pin(c, i, ctor, l, t, subs):
    bad = []
    for cap in t.a[1]:
        d, kind, val, name = cap
        if d == "this" or kind != "copy":
            continue
        vs = val if isinstance(val, frozenset) else frozenset([val])
        if vs & subs:
            bad.append(name)
    c.ob("no kept callable holds on to a collaborator that can be replaced", where(ctor),
         "%s / %s" % (sig(ctor), show(l).replace("this.", "")), not bad,
         "the callable kept in %s captures '%s' by value, and keeps using it after it has been replaced" % (
             show(l).replace("this.", ""), ", ".join(str(b) for b in bad)))


def registry(c, m):
    p = m.p
    for q in sorted(p.records):
        if not q.startswith(model.REPL) or "::" in q.split(">")[-1]:
            continue
        nm = short(q[len(model.REPL):-1])
        this = mk("obj", q)
        for f in p.fn(q + "::replace"):
            par = mk("param", f["params"][0]["name"])
            cl = ReplClient(par, this)
            I = Interp(p, cl)
            cl.I = I
            outs = I.run(f, this=S(this), world=World(dom=frozenset()))
            rets = [w for w, o in outs if o == "return"]
            real = [w for w in rets if "self" not in selfcase(w, par, this)]
            if not real:
                c.ob("replacing tells every client", where(f), nm, None, "no path for a different replacement")
                continue
            ok, det = True, ""
            if not cl.hits:
                ok, det = False, "no registered callback is ever called"
            elif cl.badargs:
                ok, det = False, "a callback is given %s instead of the replacement (%s)" % cl.badargs[0]
            elif cl.miss:
                ok, det = False, "an iteration over the subscriptions can skip the callback (loop at %s)" % cl.miss[0][0].at()
            elif cl.brk:
                ok, det = False, "the loop over the subscriptions can end early (%s)" % cl.brk[0][0].at()
            elif any("looped" not in (w.dom or ()) and "ever" not in (w.dom or ()) for w in real):
                w = [w for w in real if "looped" not in (w.dom or ())][0]
                if not any(x.op in ("isnull", "size", "eq", "lt") for t, b in w.facts for x in subterms(t)):
                    ok, det = False, "can return without visiting the subscriptions"
            c.ob("replacing tells every client", where(f), nm, ok, det)
            # where the subscriptions go
            some = [w for w in real if not {"moved", "movedloop"} & set(w.dom or ()) and not (cl.moveloops and "looped" in (w.dom or ())) and not vacant(w, this)]
            if cl.clobber:
                c.ob("the replacement keeps its own clients and takes over the others", where(f), nm, False,
                     "the replacement's own subscriptions are overwritten (%s)" % cl.clobber[0])
            elif cl.moves and some and not cl.other:
                c.ob("the replacement keeps its own clients and takes over the others", where(f), nm, False,
                     "the subscriptions are not always handed over: not on the path to %s" % some[0].at() if hasattr(some[0], "at") else "the subscriptions are handed over only under a condition")
            elif cl.moves and cl.skips:
                c.ob("the replacement keeps its own clients and takes over the others", where(f), nm, False,
                     "an iteration can leave its subscription behind (loop at %s)" % cl.skips[0])
            elif cl.moves:
                c.ob("the replacement keeps its own clients and takes over the others", where(f), nm, True)
            else:
                c.ob("the replacement keeps its own clients and takes over the others", where(f), nm,
                     False if not cl.other else None, "the subscriptions are not added to the replacement's")
            c.ob("a replaced object forgets its clients", where(f), nm, bool(cl.dropped),
                 "the subscriptions stay with the replaced object")
            c.functions |= I.inlined
        ids(c, m, q, nm)


def selfcase(w, par, this):
    for t, b in w.facts:
        if b and t.op == "eq" and this in [x for y in t.a for x in subterms(y)] and par in [x for y in t.a for x in subterms(y)]:
            return {"self"}
    return set()


def vacant(w, this, other=False):
    """The path has found that there are no subscriptions (here, or in the other)."""
    for t, b in w.facts:
        if not any((root(x) == this) != other for y in t.a if isinstance(y, T) for x in subterms(y) if x.op == "f" and x.a[1] == "callbacks"):
            continue
        if hollow(t, b):
            return True
    return False


class ReplClient(EachClient):
    def __init__(self, par, this):
        super().__init__("replace_cb")
        self.moveloops, self._skips = set(), []
        self.par, self.me = par, this
        self.badargs, self.moves, self.clobber, self.dropped, self.other = [], [], [], [], []

    @property
    def skips(self):
        return [a for l, a in self._skips if l in self.moveloops]

    def on(self, w, ev):
        n0 = len(self.moves)
        r = self.on_(w, ev)
        if len(self.moves) > n0:
            key = ("move", self.I.sites[-1:])
            r = [self.st(x, (x.dom or frozenset()) | {key, "moved"})[0] for x in (r or [w])]
        elif ev.k in ("iterend", "loopbreak"):
            key = ("move", self.I.sites[-1:])
            out = []
            for x in r or [w]:
                if key in (x.dom or ()):
                    self.moveloops.add(ev.d["node"]["l"])
                elif self.I.mute == 0:
                    self._skips.append((ev.d["node"]["l"], ev.at()))
                out += self.st(x, (x.dom or frozenset()) - {key})
            r = out
        return r

    def on_(self, w, ev):
        d = ev.d
        if ev.k == "icall" and d["fn"].op == "f" and d["fn"].a[1] == "replace_cb":
            for a in d["args"]:
                if isinstance(a, frozenset) and a != S(self.par) and not any(self.par in subterms(t) for t in a):
                    self.badargs.append((show(a), ev.at()))
        mine = lambda ls: any(first_cb(l) is not None and root(l) == self.me for l in ls)
        succ = lambda ls: any(first_cb(l) is not None and root(l) != self.me for l in ls)
        if ev.k == "cmod":
            n = d.get("n")
            if succ(d["cont"]):
                if n in ("insert", "emplace", "merge", "operator[]", "insert_or_assign", "emplace_hint"):
                    self.moves.append(ev.at())
                elif n in ("swap", "operator=") and vacant(w, self.me, True):
                    self.moves.append(ev.at())
                elif n in ("clear", "erase", "swap", "operator="):
                    self.clobber.append(ev.at())
                else:
                    self.other.append(ev.at())
            if mine(d["cont"]) and n in ("erase", "clear", "merge", "swap"):
                self.dropped.append(ev.at())
        elif ev.k == "assign":
            if succ(d.get("locs") or ()):
                if any(l.op == "f" for l in d["locs"]) and not vacant(w, self.me, True):
                    self.clobber.append(ev.at())
                else:
                    self.moves.append(ev.at())
            if mine(d.get("locs") or ()):
                self.dropped.append(ev.at())
        elif ev.k == "swap":
            both = frozenset(d["a"]) | frozenset(d["b"])
            if succ(both) and vacant(w, self.me, True):
                self.moves.append(ev.at())
            elif succ(both):
                self.clobber.append(ev.at())
            if mine(both):
                self.dropped.append(ev.at())
        elif ev.k == "write":
            if succ(d["locs"]):
                self.moves.append(ev.at())
        return super().on(w, ev)


def first_cb(l):
    while isinstance(l, T) and l.op in ("f", "idx", "iter", "key", "addr"):
        if l.op == "f" and l.a[1] == "callbacks":
            return l
        l = l.a[0]
    return None


def ids(c, m, q, nm):
    """The keys of subscriptions are unique across objects that can replace
    one another: fresh values of a shared atomic counter."""
    p = m.p
    this = mk("obj", q)
    for f in p.fn(q + "::add_callbacks"):
        I = Interp(p, Client())
        for w, o in I.run(f, this=S(this)):
            if o != "return" or not w.ret:
                continue
            rec = p.records[q]
            per = [x["name"] for x in rec["fields"] if any(y.op == "f" and y.a[1] == x["name"] for t in w.ret for y in subterms(t))]
            c.ob("subscription ids are unique among the objects that can replace each other", where(f), nm, not per,
                 "the id is drawn from '%s', which every object has its own of: subscriptions moved by replace() collide" % ", ".join(per))
