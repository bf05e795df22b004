"""C08: no deadlock between the library's locks."""
from .common import *
from .. import conc as CC
from .c06 import helper

RULE = ("Lock-order graph over classes of locks (lock field of a class, global lock, critical section name): an edge A -> B "
        "where a path takes B, directly or in anything it calls (virtual calls, cached calculations and stored callbacks "
        "resolved), while it holds A. The graph must have no cycle; a lock which guards shared fields must not be held "
        "while a stored calculation is run. An edge to a lock taken together with the creation of its record, or "
        "after which a flag of the object, false before, is set before the held lock is released, cannot wait for a thread that needs the held lock and is exempt.")


class Ord(CC.LockClient):
    """LockClient which also records, per acquisition, whether the lock was
    initialised on the path or the path's conditions decide a guarded flag."""

    def __init__(self, conc, this, f):
        super().__init__(conc, this, f)
        self.acq = []

    def on(self, w, ev):
        d = ev.d
        if ev.k == "lock" and d["op"].startswith("omp_init"):
            w = w.copy()
            w.dom = (w.dom or frozenset()) | {mk("fresh", l) for l in d["locs"]}
            return [w]
        if ev.k == "lock" and d["op"] in ("omp_set_lock", "omp_set_nest_lock") and len(d["locs"]) == 1 and not self.I.mute:
            l = next(iter(d["locs"]))
            held = frozenset(h for h in (w.dom or frozenset()) if h.op not in ("fresh", "pend"))
            held = frozenset(h for h in held if h.op != "pend")
            ok = mk("fresh", l) in (w.dom or ())
            cand = () if ok else self.flags(w)
            if any(TRUE == x for fl in cand for x in (w.store.get(fl) or ())):
                ok = True            # the flag is set already
            if ok or not cand or not held:
                self.acq.append((l, held, ok, ev.at(), ev.fn))
            else:
                # decided when the flag is set, or the lock held is released
                w = w.copy()
                w.dom = (w.dom or frozenset()) | {mk("pend", l, held, frozenset(cand), ev.at())}
                return super().on(w, ev)
        pend = [x for x in (w.dom or ()) if x.op == "pend"]
        if pend and ev.k == "write" and S(TRUE) == d.get("vals"):
            done = [x for x in pend if d["locs"] & x.a[2]]
            if done:
                for x in done:
                    self.settle(x, True)
                w = w.copy()
                w.dom = w.dom - frozenset(done)
                return super().on(w, ev) or [w]
        if pend and ev.k == "lock" and "unset" in d["op"]:
            done = [x for x in pend if d["locs"] & x.a[1]]
            if done:
                for x in done:
                    self.settle(x, False)
                w = w.copy()
                w.dom = w.dom - frozenset(done)
                return super().on(w, ev) or [w]
        if ev.k == "omp" and d["d"] == "critical" and not self.I.mute:
            self.acq.append((mk("crit", d.get("name") or ""), frozenset(h for h in (w.dom or frozenset()) if h.op not in ("fresh", "pend")), False, ev.at(), ev.fn))
        return super().on(w, ev)

    def settle(self, x, ok):
        if not self.I.mute:
            self.acq.append((x.a[0], x.a[1], ok, x.a[3], None))

    def flags(self, w):
        """Boolean fields of the object which are false on this path."""
        out = []
        for t, b in w.facts:
            if t.op == "f" and t.a[0] == self.this and not b:
                out.append(t)
            if t.op == "not" and isinstance(t.a[0], T) and t.a[0].op == "f" and t.a[0].a[0] == self.this and b:
                out.append(t.a[0])
        return out


def lclass(l, this):
    """Class of a lock: (owner class, field)."""
    if l.op == "crit":
        return "critical(%s)" % l.a[0]
    r = root(l)
    fs = []
    t = l
    while t != r:
        fs.append(t.a[1] if t.op == "f" else "[]")
        t = t.a[0]
    fs = ".".join(reversed(fs))
    if r.op == "obj":
        return "%s.%s" % (short(r.a[0]), fs)
    if r.op == "g":
        return short(r.a[0]) + ("." + fs if fs else "")
    return None


def run(thorough=False):
    c = Check("C08", RULE, thorough)
    m = the_model()
    p = m.p
    cc = CC.conc(p, m)
    todo = [p.funcs[i] for i in cc.locky if i in p.funcs]
    runs = {}
    for f in todo:
        if f.get("islambda") and f["id"] not in cbk(cc):
            continue
        th = cc.this_of(f)
        cl = Ord(cc, th, f)
        I = Interp(p, cl)
        cl.I = I
        try:
            I.run(f, this=S(th) if th is not None else None, world=World(dom=frozenset()))
        except TooBig:
            c.ob("analysed within budget", where(f), sig(f), None)
            continue
        cl.inl = I.inlined
        runs[f["id"]] = (f, cl)
        c.functions.add(f["id"])
    # locks a function may take, directly
    direct = {}
    for i, (f, cl) in runs.items():
        for l, held, ok, at, fn in cl.acq:
            n = name(p, l, cl.this)
            if n:
                direct.setdefault(i, {})[n] = at
    take = Takes(cc, direct)
    edges = {}
    for i, (f, cl) in runs.items():
        for l, held, ok, at, fn in cl.acq:
            n = name(p, l, cl.this)
            c.sites.add(at)
            for h in held:
                hn = name(p, h, cl.this)
                if hn and n and hn != n and not ok:
                    edges.setdefault((hn, n), (at, sig(f), "takes it directly"))
                elif hn and n and hn != n:
                    c.count("exempt_edges")
        for ev, held in cl.calls_held:
            held = [h for h in held if h.op not in ("fresh", "pend")]
            if not held:
                continue
            c.count("calls_made_with_a_lock_held")
            ids = callees(cc, ev, f)
            for x in ids:
                for n, path in take.of(x).items():
                    for h in held:
                        hn = name(p, h, cl.this)
                        if hn and hn != n:
                            edges.setdefault((hn, n), (ev.at(), sig(f), "through " + path))
    # stored calculations run while a guarding lock is held
    for i, (f, cl) in sorted(runs.items()):
        if f.get("access", 0) and any(f["id"] in r[1].inl for j, r in runs.items() if j != i):
            continue
        bad = False
        for ev, held in cl.calls_held:
            if ev.k != "icall":
                continue
            t = (ev.node or {}).get("t") if isinstance(ev.node, dict) else ""
            fnv = ev.d.get("fn") or ev.d.get("f")
            if (t or "void") == "void":
                continue
            g = [h for h in held if h.op == "f" and h.a[0] == cl.this and guarding(cc, cl.this.a[0], h.a[1])]
            for h in g:
                bad = True
                c.ob("calculations run without the guarding lock", ev.at(), "%s holds %s" % (sig(f), show(h)), False)
        if any(ev.k == "icall" for ev, _ in cl.calls_held) or cl.acq:
            if not bad:
                c.ob("calculations run without the guarding lock", where(f), sig(f), True)
    c.count("lock_classes", len({x for e in edges for x in e}))
    c.count("lock_order_edges", len(edges))
    cyc = cycles(edges)
    for (a, b), (at, s, how) in sorted(edges.items()):
        if (a, b) in cyc:
            c.ob("locks are taken in one order", at, "%s: %s then %s" % (s, a, b), False, "another path takes them in the other order: %s; %s" % (
                " -> ".join(cyc[(a, b)]), how))
        else:
            c.ob("locks are taken in one order", at, "%s then %s" % (a, b), True)
    c.need("calculations run without the guarding lock", 4)
    return c.finish()


_cbk = {}


def cbk(cc):
    """Lambdas kept for later: callbacks and cached calculations."""
    if id(cc) not in _cbk:
        s = set(cc.cache_closures())
        for r in cb_lambdas(cc).values():
            s |= r
        _cbk[id(cc)] = s
    return _cbk[id(cc)]


def cb_lambdas(cc):
    """Class of the object subscribed to -> lambdas given to add_callbacks."""
    if not hasattr(cc, "_cbl"):
        out = {}
        for f in cc.p.funcs.values():
            for part in ("body", "inits"):
                for e in CC.walk(f.get(part) or []):
                    if e.get("k") == "call" and e.get("n") == "add_callbacks":
                        for x in CC.walk(e.get("a") or []):
                            if x.get("k") == "lambda":
                                out.setdefault(e.get("cl"), set()).add(x["f"])
                    if e.get("k") == "call" and e.get("n") == "Add_Cache":
                        for x in CC.walk(e.get("a") or []):
                            if x.get("k") == "lambda":
                                out.setdefault("Add_Cache", set()).add(x["f"])
        cc._cbl = out
    return cc._cbl


def name(p, l, this):
    if l.op == "crit":
        return "critical(%s)" % l.a[0]
    r = root(l)
    fs, t = [], l
    while t != r:
        fs.append(t.a[1] if t.op == "f" else "[]")
        t = t.a[0]
    fs.reverse()
    if r.op == "obj":
        cls = r.a[0]
        if fs:
            for q in [cls] + p.bases(cls):
                if any(x["name"] == fs[0] for x in p.records.get(q, {}).get("fields", [])):
                    cls = q
                    break
        return "%s.%s" % (short(cls), ".".join(fs))
    if r.op == "g":
        return short(r.a[0]) + ("." + ".".join(fs) if fs else "")
    if r.op in ("param", "new"):
        return None
    return None


class Takes:
    """Locks that may be taken by calling a function: name -> witness path."""

    def __init__(self, cc, direct):
        self.cc, self.direct = cc, direct
        self.memo = {}

    def of(self, i):
        if i in self.memo:
            return self.memo[i]
        out, seen, st = {}, set(), [(i, ())]
        while st:
            x, path = st.pop()
            if x in seen or x not in self.cc.p.funcs:
                continue
            seen.add(x)
            q = short(self.cc.p.funcs[x]["q"])
            pa = path + (q,)
            for n in self.direct.get(x, ()):
                out.setdefault(n, " > ".join(pa[-5:]))
            for y in succ(self.cc, x):
                st.append((y, pa))
        self.memo[i] = out
        return out


def succ(cc, i):
    if not hasattr(cc, "_succ"):
        cc._succ = {}
    if i in cc._succ:
        return cc._succ[i]
    p = cc.p
    f = p.funcs[i]
    out = set()
    later = set()
    for part in ("body", "inits"):
        for e in CC.walk(f.get(part) or []):
            if (e.get("k") == "ctor" and CC.M.is_cache_t(e.get("cls") or "")) or (e.get("k") == "call" and e.get("n") in ("add_callbacks", "Add_Cache")):
                for x in CC.walk(e.get("a") or []):
                    if x.get("k") == "lambda":
                        later.add(x["f"])
    for part in ("body", "inits"):
        for e in CC.walk(f.get(part) or []):
            k = e.get("k")
            if k in ("call", "ctor", "memfn") and e.get("f"):
                out.add(e["f"])
                if e.get("virt"):
                    out |= set(cc.over(e["f"]))
                o = e.get("o")
                if e.get("n") == "operator()" and CC.M.is_cache_t(e.get("cl") or ""):
                    fl = cc.fieldclo.get(o.get("f")) if isinstance(o, dict) and o.get("k") == "mem" else None
                    out |= set(fl if fl is not None else cc.cache_closures())
            elif k == "lambda":
                if e["f"] not in later:
                    out.add(e["f"])
            elif k == "ref" and e.get("dk") == "func":
                out.add(e.get("d"))
            elif k == "decl":
                for v in e.get("vars", []):
                    r = (v.get("t") or "").replace("const ", "").strip()
                    if r in p.dtor_of and not v.get("ref"):
                        out.add(p.dtor_of[r]["id"])
    if f.get("rec", "") and f["rec"].startswith("SLAT::Replaceable") and f["name"] in ("notify_change", "replace"):
        out |= cb_lambdas(cc).get(f["rec"], set())
    if f["name"] == "Clear_Caches":
        out |= cb_lambdas(cc).get("Add_Cache", set())
    cc._succ[i] = out
    return out


def callees(cc, ev, f):
    e = ev.node if isinstance(ev.node, dict) else {}
    out = set()
    if ev.k == "icall":
        rec = f.get("rec") or ""
        if rec.startswith("SLAT::Replaceable"):
            out |= cb_lambdas(cc).get(rec, set())
        elif "Cached" in rec:
            out |= set()
        elif f["name"] == "Clear_Caches":
            out |= cb_lambdas(cc).get("Add_Cache", set())
        return out
    if e.get("f"):
        out.add(e["f"])
        if e.get("virt"):
            out |= set(cc.over(e["f"]))
        o = e.get("o")
        if e.get("n") == "operator()" and CC.M.is_cache_t(e.get("cl") or ""):
            fl = cc.fieldclo.get(o.get("f")) if isinstance(o, dict) and o.get("k") == "mem" else None
            out |= set(fl if fl is not None else cc.cache_closures())
    return out


def guarding(cc, cls, lock):
    """The lock is held at every access of some field written outside constructors."""
    if not hasattr(cc, "_gd"):
        cc._gd = {}
    if cls not in cc._gd:
        by = {}
        for f in cc.p.methods_of.get(cls, []):
            if "body" in f and f["k"] not in ("ctor", "dtor") and not f.get("implicit"):
                cl, outs = cc.run(f)
                for a in cl.acc:
                    if a.key[0] == "field":
                        by.setdefault(a.key[2], []).append(a)
        g = set()
        for fld, acc in by.items():
            if any(a.write for a in acc):
                com = frozenset.intersection(*[a.held for a in acc])
                g |= {h.a[1] for h in com if h.op == "f" and h.a[0].op == "obj"}
        cc._gd[cls] = g
    return lock in cc._gd[cls]


def cycles(edges):
    """Edges on a cycle -> the cycle."""
    g = {}
    for a, b in edges:
        g.setdefault(a, set()).add(b)
    out = {}
    for a, b in edges:
        prev, st = {b: None}, [b]
        while st:
            x = st.pop()
            if x == a:
                break
            for y in g.get(x, ()):
                if y not in prev:
                    prev[y] = x
                    st.append(y)
        if a in prev:
            path, x = [], a
            while x is not None:
                path.append(x)
                x = prev[x]
            out[(a, b)] = list(reversed(path)) + [b]
    return out
