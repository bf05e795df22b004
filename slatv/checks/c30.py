"""C30: a remembered result is the one its own calculation gave for that argument."""
from ..formula import *
from .. import memo

RULE = ("Each cache class is interpreted abstractly, path by path with exceptional edges, everything another thread can change "
        "being forgotten where a lock is taken. What an operator returns must be the calculation's result for the very "
        "argument given, or be read from the memory of the cache while a lock is held and after a test which shows that it "
        "is there. Only such results may be stored, under their own argument; what tells that a result is there is set only "
        "together with the result, and not at construction. Clearing empties the memory on every path; a constructor "
        "registers the clearing of the cache under its own key, a destructor removes that key, and clearing all caches "
        "calls what is registered for each of them.")

RET = "what is returned was calculated for that argument"
STO = "what is stored was calculated for its key"
INV = "the sign that a result is there comes with the result"
NEW = "a new cache remembers nothing"
CLR = "clearing forgets every result"
REG = "every cache is registered, under its own key, until it is destroyed"
ALL = "clearing all caches clears each of them"
NS = "SLAT::Caching::"


BLANK = (frozenset(), frozenset(), False, None)


class Follow(Client):
    merge = "paths"
    throws = True
    drop_on_lock = True
    max_worlds = 4000

    def __init__(self, p, this):
        self.p, self.this = p, this
        self.bad = {}          # (rule, place, text)
        self.memories = set()
        self.flags = ()        # (memory, flag, polarity)
        self.own = set()
        self.calcs = set()
        self.I = None
        self.seen = 0
        self.undefined = False  # the argument can be NaN

    # dom: (locks held, entries made by reading, a value was taken from memory, what was known then)
    def on(self, w, ev):
        held, doubt, taken, shown = w.dom or BLANK
        this = self.this
        k = ev.k
        if k == "icall":
            fn, val = ev.d["fn"], ev.d.get("val")
            args = ev.d.get("args") or []
            if fn.op == "f" and root(fn) == this and val:
                good = all(len(v) == 1 and next(iter(v)) == mk("param", "a%d" % i) for i, v in enumerate(args))
                vs = val if isinstance(val, frozenset) else [val]
                if good:
                    self.own |= set(vs)
                    self.calcs.add(fn)
        elif k == "lock":
            w = w.copy()
            op = ev.d["op"]
            if "unset" in op:
                bad = [x for x in doubt]
                if bad:
                    self.note(INV, ev, "the memory %s gets a default result for an argument without one" % show(bad[0]))
                self.invariant(w, ev)
                if taken:
                    shown = frozenset(self.signs(w)) if held else frozenset()
                held, doubt, taken = held - ev.d["locs"], frozenset(), False
            elif "set" in op:
                if taken:
                    shown = frozenset()
                held, taken = held | ev.d["locs"], False
            w.dom = (held, doubt, taken, shown)
            return [w]
        elif k == "index" and ev.d.get("ismap"):
            for c in ev.d["cont"]:
                for key in ev.d["key"]:
                    if self.ismemory(c) and not self.present(w, c, key):
                        w = w.copy()
                        w.dom = (held, doubt | {mk("idx", c, key)}, taken, shown)
                        return [w]
        elif k == "write":
            if any(v in self.memories and v.op == "f" for v in ev.d["vals"]) and not any(l in self.memories for l in ev.d["locs"]):
                w = w.copy()
                w.dom = (held, doubt, True, None)
                return [w]
            for l in ev.d["locs"]:
                if l.op == "idx" and self.ismemory(l.a[0]):
                    self.stored(l, ev.d["vals"], ev)
                    if l in doubt:
                        w = w.copy()
                        w.dom = (held, doubt - {l}, taken, shown)
                        return [w]
                elif l.op == "f" and l.a[0] == this and l in self.memories:
                    self.stored(l, ev.d["vals"], ev)
        elif k == "cmod" and ev.d["n"] in ("insert", "emplace", "emplace_hint", "insert_or_assign", "try_emplace") and ev.d.get("keys"):
            for c in ev.d["cont"]:
                if self.ismemory(c):
                    for key in ev.d["keys"]:
                        self.stored(mk("idx", c, key), ev.d.get("elem") or frozenset(), ev)
        elif k == "return" and any(v in self.memories and v.op == "f" for v in ev.d.get("val") or ()) and (taken or shown is None):
            w = w.copy()
            w.dom = (held, doubt, False, frozenset(self.signs(w)) if held else frozenset())
            return [w]
        return None

    def ismemory(self, c):
        return c in self.memories

    def present(self, w, c, key):
        if not (w.dom or (0,))[0]:
            return False
        n = mk("count", c, key)
        z = self.I.eqterm(n, mk("lit", 0))
        if w.fact(z) is False or w.fact(n) is True or w.fact(self.I.eqterm(n, mk("lit", 1))) is True:
            return True
        # an entry made for NaN is not found again
        return mk("idx", c, key) in w.store and not (self.undefined and not self.number(w, key))

    def number(self, w, key):
        """is the argument known not to be NaN?"""
        for t, b in w.facts:
            while t.op == "not" or t.op == "un" and t.a[0] == "!":
                t, b = t.a[-1], not b
            if not b and (t.op == "isnan" and key in t.a or t.op == "ext" and t.a[0] in ("isnan", "std::isnan") and key in t.a[1:]):
                return True
            if b and (t.op in ("lt", "le", "gt", "ge") and key in t.a or t.op == "ext" and t.a[0] in ("isfinite", "std::isfinite") and key in t.a[1:]):
                return True
        return False

    def signs(self, w):
        """flags of the object with a known value"""
        for t, b in w.facts:
            if t.op == "f" and t.a[0] == self.this:
                yield t, b
        for l, v in w.store.items():
            if l.op == "f" and l.a[0] == self.this and len(v) == 1:
                x = next(iter(v))
                if x.op == "lit" and x.a[0] in ("true", "false", True, False):
                    yield l, x.a[0] in ("true", True)

    def invariant(self, w, ev):
        for mem, flag, pos in self.flags:
            now = dict(self.signs(w)).get(flag)
            st = w.store.get(mem)
            if st is not None and not all(v in self.own or v == mem for v in st) and now != (not pos):
                self.note(INV, ev, "%s holds something else than the result, and %s may say that it is there" % (show(mem), show(flag)))
            elif now is pos and flag in w.store and not (st is not None and all(v in self.own for v in st)):
                self.note(INV, ev, "%s says that a result is there, which %s does not hold" % (show(flag), show(mem)))

    def stored(self, l, vals, ev):
        if self.I.mute:
            return
        self.seen += 1
        if l.op == "idx":
            key = l.a[1]
            if key != mk("param", "a0"):
                self.note(STO, ev, "a result is stored under %s, which is not the argument" % show(key))
                return
            for v in vals:
                if v not in self.own and v != l:
                    self.note(STO, ev, "%s is stored for the argument" % show(v)[:80])

    def note(self, rule, ev, text):
        if not self.I.mute:
            self.bad.setdefault((rule, ev.at(), text), None)


def run_op(p, f, memories, flags=()):
    this = mk("obj", f["rec"])
    cl = Follow(p, this)
    cl.memories, cl.flags = set(memories), flags
    cl.undefined = bool(f["params"]) and f["params"][0]["t"].replace("const ", "").rstrip("& ") in ("double", "float", "long double")
    I = cl.I = Interp(p, cl)
    w = World()
    w.dom = BLANK
    outs = I.run(f, this=S(this), args=[S(mk("param", "a%d" % i)) for i in range(len(f["params"]))], world=w)
    return cl, I, outs


def fieldtype(p, rec, n):
    for r in [rec]:
        for x in (p.records.get(r) or {}).get("fields", []):
            if x["name"] == n:
                return x.get("t") or ""
    return ""


def operator(c, p, f):
    """An operator() of a cache class."""
    at, what = where(f), short(f["rec"])
    this = mk("obj", f["rec"])
    # which memory is read?
    cl, I, outs = run_op(p, f, ())
    c.functions |= I.inlined | {f["id"]}
    rets = [(w.ret or frozenset()) for w, o in outs if o == "return"]
    if not rets:
        c.ob(RET, at, what, None, "no path returns")
        return None
    mem = set()
    for r in rets:
        for t in r:
            if t in cl.own:
                continue
            if t.op == "idx" and t.a[0].op == "f" and t.a[0].a[0] == this:
                mem.add(t.a[0])
            elif t.op == "f" and t.a[0] == this:
                mem.add(t)
    cl, I, outs = run_op(p, f, mem)
    c.count("paths", len(outs))
    good, why = True, ""
    maps = {m for m in mem if any(t.op == "idx" and t.a[0] == m for r in rets for t in r)}
    for w, o in outs:
        for t in sorted((w.dom or BLANK)[1], key=show):
            cl.bad.setdefault((INV, at, "%s is used without a lock, or without knowing that there is one" % show(t)), None)
        if o != "return":
            continue
        for t in w.ret or frozenset([mk("top", "?")]):
            if t in cl.own:
                continue
            if t.op == "idx" and t.a[0] in maps:
                if t.a[1] == mk("param", "a0"):
                    continue
                good, why = (False, "returns what is remembered for %s" % show(t.a[1]))
            elif t in mem:
                continue
            elif foreign_term(t):
                if good is not False:
                    good, why = None, "returns %s, which is not understood" % show(t)[:100]
            else:
                good, why = False, "returns %s" % show(t)[:100]
    # a single remembered value: what shows that it is there?
    flags = ()
    for m in sorted(mem - maps, key=show):
        cand = None
        for w, o in outs:
            if o == "return" and m in (w.ret or ()):
                shown = (w.dom or BLANK)[3]
                if shown is None:
                    shown = frozenset(cl.signs(w)) if (w.dom or BLANK)[0] else frozenset()
                cand = shown if cand is None else cand & shown
        if cand is None:
            continue
        cand = sorted(cand, key=lambda x: show(x[0]))
        if not cand:
            good, why = False, "%s is returned without it being known whether a result is there" % show(m)
            continue
        best = None
        for fl, pos in cand:
            cl2, _, _ = run_op(p, f, mem, ((m, fl, pos),))
            bad = [k for k in cl2.bad if k[0] == INV]
            if best is None or len(bad) < len(best[1]):
                best = ((m, fl, pos), bad)
        flags += (best[0],)
        for k in best[1]:
            cl.bad.setdefault(k, None)
    c.ob(RET, at, what, good, why)
    for rule in (STO, INV):
        bad = sorted(k for k in cl.bad if k[0] == rule)
        if rule == STO and not maps and not bad:
            continue
        c.ob(rule, bad[0][1] if bad else at, what, not bad, bad[0][2] if bad else "")
    for m in maps:
        # other arguments must not share an entry
        t = fieldtype(p, f["rec"], m.a[1])
        v = f["params"][0]["t"].replace("const ", "").rstrip("& ") if f["params"] else ""
        if "map<" in t and v:
            key = t.split("map<", 1)[1]
            same = key.startswith(v + ",") or key.startswith(v + " ,")
            num = key.split(",")[0].strip()
            c.ob(STO, at, what + ": the key", True if same else (False if num in NUM else None), "arguments of type %s are remembered by keys of type %s" % (v, num))
    return mem, maps, flags, {t for t in cl.calcs}


NUM = ("int", "float", "long", "unsigned int", "short", "unsigned long", "char", "bool", "double")


def foreign_term(t):
    return any(x.op in ("top", "ext", "iter", "m", "new", "dflt") or x.op == "v" for x in subterms(t))


class Clears(Client):
    """Follows a clearing function: is the memory empty at its end?"""
    merge = "paths"
    throws = True
    drop_on_lock = True
    max_worlds = 1000

    def __init__(self, this, maps, flags):
        self.this, self.maps, self.flags = this, maps, flags

    def on(self, w, ev):
        done = w.dom or frozenset()
        new = done
        if ev.k == "cmod" and ev.d["n"] == "clear":
            new = done | (ev.d["cont"] & self.maps)
        elif ev.k in ("write", "assign"):
            vals = ev.d["vals"]
            for l in ev.d["locs"]:
                for m, fl, pos in self.flags:
                    if l == fl and len(ev.d["locs"]) == 1:
                        off = len(vals) == 1 and next(iter(vals)).op == "lit" and (next(iter(vals)).a[0] in ("true", True)) == (not pos)
                        new = new | {fl} if off else new - {fl}
                if l in self.maps and len(vals) == 1 and (next(iter(vals)).op in ("dflt",) or next(iter(vals)).op == "rec" and not next(iter(vals)).a[0]):
                    new = new | {l}
        elif ev.k == "swap":
            for l in self.maps:
                if l in ev.d["a"] or l in ev.d["b"]:
                    new = new | {l}
        if new != done:
            w = w.copy()
            w.dom = new
            return [w]
        return None


def clearing(p, f, maps, flags, this=None, args=None, closure=None, store=None):
    this = this or mk("obj", f["rec"])
    cl = Clears(this, maps, flags)
    I = cl.I = Interp(p, cl)
    w = World(store)
    w.dom = frozenset()
    outs = I.run(f, this=S(this), args=[], world=w)
    need = set(maps) | {fl for _, fl, _ in flags}
    left = [need - (w.dom or frozenset()) for w, o in outs if o in ("return", "fall")]
    bad = [x for x in left if x]
    if not left:
        return None, "does not return", I
    # a memory which nothing is remembered in, without flag
    return (not bad), (("on some path %s is not cleared" % ", ".join(sorted(show(x) for x in bad[0]))) if bad else ""), I


class Registers(Client):
    merge = "paths"
    max_worlds = 1000

    def __init__(self):
        self.inv = []

    def on(self, w, ev):
        got = w.dom or frozenset()
        new = got
        if ev.k == "write":
            for l in ev.d["locs"]:
                if l.op == "idx" and root(l).op in ("g", "v") and l.a[0].op == "g":
                    new = new | {("add", l.a[0], l.a[1], tuple(sorted(ev.d["vals"], key=show)))}
        elif ev.k == "cmod":
            for c in ev.d["cont"]:
                if c.op == "g":
                    n = ev.d["n"]
                    if n in ("insert", "emplace") and ev.d.get("keys"):
                        for k in ev.d["keys"]:
                            new = new | {("add", c, k, tuple(sorted(ev.d.get("elem") or (), key=show)))}
                    elif n == "erase":
                        for v in (ev.d["vals"] or [[]])[0]:
                            new = new | {("erase", c, v.a[1] if v.op == "iter" else v, ())}
                    elif n == "clear":
                        new = new | {("erase", c, STAR, ())}
        if new != got:
            w = w.copy()
            w.dom = new
            return [w]
        return None


def registration(c, p, rec, maps, flags, calcs):
    this = mk("obj", rec)
    fs = [f for f in p.funcs.values() if f.get("rec") == rec and "body" in f]
    ctors = [f for f in fs if f.get("k") == "ctor" and not f.get("copy") and not f.get("implicit")]
    dtor = next((f for f in fs if f.get("k") == "dtor"), None)
    ckey = None
    for f in ctors:
        def go(f=f):
            nonlocal ckey
            cl = Registers()
            I = cl.I = Interp(p, cl)
            w = World()
            w.dom = frozenset()
            outs = I.run(f, this=S(this), args=[S(mk("param", "a%d" % i)) for i in range(len(f["params"]))], world=w)
            c.functions |= I.inlined | {f["id"]}
            at, what = where(f), short(rec) + ": constructor"
            ok, why, fresh = True, "", ""
            for w, o in outs:
                if o == "throw":
                    continue
                adds = [x for x in (w.dom or ()) if x[0] == "add"]
                mine = [x for x in adds if x[2] == this or x[2] == mk("addr", this)]
                if not adds and any(t.op == "eq" and not b and any(x.op == "count" and x.a[1] in (this, mk("addr", this)) for x in t.a) for t, b in w.facts):
                    continue        # it is there already
                if not adds:
                    ok, why = False, "the cache is not registered"
                elif not mine:
                    ok, why = (None if any(foreign_term(x[2]) for x in adds) else False), "registered under %s" % show(adds[0][2])
                else:
                    ckey = mine[0][1]
                    for v in mine[0][3]:
                        if v.op == "clo" and maps | set(flags):
                            g = p.funcs.get(v.a[0])
                            r, y, _ = clearing_of(p, w, v, f, this, maps, flags)
                            if r is False:
                                ok, why = False, "what is registered does not clear this cache: " + y
                            elif r is None and ok:
                                ok, why = None, y
                        elif v.op != "clo" and ok:
                            ok, why = None, "what is registered is not understood"
                for m, fl, pos in flags:
                    v = w.store.get(fl)
                    if v is None or not all(x.op == "lit" and (x.a[0] in ("true", True)) == (not pos) for x in v):
                        fresh = "%s does not say that nothing is remembered" % show(fl)
                for t in calcs:
                    v = w.store.get(t)
                    if v is None or not all(x.op == "param" for x in v):
                        fresh = "the calculation is not the one given"
            c.ob(NEW, at, what, not fresh, fresh)
            c.ob(REG, at, what, ok, why)
        guarded(c, REG, where(f), short(rec), go)
    deregistration(c, p, rec, dtor, REG)
    return ckey


def deregistration(c, p, rec, dtor, REG):
    """Every path through the destructor removes this cache from the list."""
    this = mk("obj", rec)
    if dtor is None:
        c.ob(REG, "", short(rec) + ": destructor", False, "there is no destructor: a destroyed cache stays registered")
    else:
        def go2():
            cl = Registers()
            I = cl.I = Interp(p, cl)
            w = World()
            w.dom = frozenset()
            outs = I.run(dtor, this=S(this), args=[], world=w)
            c.functions |= I.inlined | {dtor["id"]}
            ok, why = True, ""
            for w, o in outs:
                er = [x for x in (w.dom or ()) if x[0] == "erase"]
                if not er:
                    ok, why = False, "on some path the cache stays registered"
                elif any(x[2] is STAR for x in er):
                    ok, why = False, "others lose their registration too"
                elif not all(x[2] in (this, mk("addr", this)) for x in er):
                    ok, why = (None if ok and any(foreign_term(x[2]) for x in er) else False), "removes %s" % show(er[0][2])
            c.ob(REG, where(dtor), short(rec) + ": destructor", ok, why)
        guarded(c, REG, where(dtor), short(rec), go2)


def clearing_of(p, w0, clo, ctor, this, maps, flags):
    cl = Clears(this, maps, flags)
    I = cl.I = Interp(p, cl)
    w = World({k: v for k, v in w0.store.items() if root(k) == clo or k.op != "f"})
    w = w0.copy()
    w.dom = frozenset()
    e = {"k": "call", "l": ctor["line"], "a": []}
    I.tstack.append([])
    res = I.invoke1(e, w, model.entry_frame(ctor), clo, [])
    I.tstack.pop()
    need = set(maps) | {fl for _, fl, _ in flags}
    bad = [need - (x.dom or frozenset()) for x, _ in res if need - (x.dom or frozenset())]
    if not res:
        return None, "nothing is known of it", I
    return not bad, (("%s is not cleared" % ", ".join(sorted(show(x) for x in bad[0]))) if bad else ""), I


class Every(Client):
    """Is the element of each iteration called?"""
    merge = "paths"
    max_worlds = 1000

    def __init__(self, regs):
        self.regs, self.hits, self.miss, self.brk, self.loops = regs, set(), set(), set(), 0

    def on(self, w, ev):
        at = self.I.sites[-1] if self.I.sites else None
        if ev.k == "icall":
            fn = ev.d["fn"]
            if any(t in self.regs for t in subterms(fn)):
                self.hits.add(at)
                w = w.copy()
                w.dom = w.dom | {at}
                return [w]
        elif ev.k in ("iterend", "loopbreak"):
            if not self.I.mute:
                self.loops += 1
                if ev.k == "loopbreak":
                    self.brk.add(at)
                elif at not in w.dom:
                    self.miss.add(at)
            w = w.copy()
            w.dom = w.dom - {at}
            return [w]
        return None

    @property
    def bad(self):
        # of the loops which call, or all if none does
        over = self.hits - {None} or self.miss | self.brk
        if over & self.miss:
            return "in some iteration the cache is passed over"
        return "the loop may end before every cache was cleared" if over & self.brk else None


def all_caches(c, p, regs):
    fs = [f for f in p.fn(NS + "Clear_Caches") if "body" in f]
    if not fs:
        c.broken("Clear_Caches was not found")
    for f in fs:
        cl = Every(regs)
        I = cl.I = Interp(p, cl)
        w = World()
        w.dom = frozenset()
        outs = I.run(f, args=[], world=w)
        c.functions |= I.inlined | {f["id"]}
        if cl.loops == 0:
            c.ob(ALL, where(f), "Clear_Caches", None, "no loop was followed")
        else:
            c.ob(ALL, where(f), "Clear_Caches", cl.bad is None, cl.bad or "")


def run(thorough=False):
    c = Check("C30", RULE, thorough)
    memo.judge(c, the_model(), "no result is kept other than in a cache that is cleared")
    p = the_model().p
    regs = set()
    n = 0
    for f in sorted((x for x in p.funcs.values() if (x.get("rec") or "").startswith(NS) and "body" in x and x["name"].startswith("operator(")), key=lambda x: (x["line"], x["rec"])):
        n += 1
        info = []
        guarded(c, RET, where(f), short(f["rec"]), lambda: info.append(operator(c, p, f)))
        mem, maps, flags, calcs = (info and info[0]) or (set(), set(), (), set())
        k = registration(c, p, f["rec"], maps, flags, calcs)
        if k is not None:
            regs.add(k)
        for g in p.funcs.values():
            if g.get("rec") == f["rec"] and g["name"] == "ClearCache" and "body" in g:
                if not maps and not flags:
                    c.ob(CLR, where(g), short(f["rec"]), None if mem else True, "the memory is not understood")
                    continue
                def go():
                    ok, why, I = clearing(p, g, maps, flags)
                    c.functions |= I.inlined | {g["id"]}
                    c.ob(CLR, where(g), short(f["rec"]), ok, why)
                guarded(c, CLR, where(g), short(f["rec"]), go)
    guarded(c, ALL, "", "Clear_Caches", lambda: all_caches(c, p, regs))
    c.count("cache classes", n)
    c.need(RET, 4)
    c.need(REG, 4)
    return c.finish()
