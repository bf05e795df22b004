"""C06: shared bookkeeping is only used under its lock."""
from .common import *
from .. import conc as CC

RULE = ("Lockset analysis: every function that can run in a parallel region, and every public operation of a class that "
        "has a lock, is interpreted with the set of locks held; helpers are analysed inside their callers. For each "
        "field that is written outside constructors, and each global, the accesses in such functions must have a lock "
        "(or critical section) in common. Atomic variables, objects local to the function and objects under "
        "construction are exempt. Records holding a lock on which threads wait are pinned: waited for only after a "
        "change of the record under the container's lock, and removed only where the path's conditions say nobody waits.")


def run(thorough=False):
    c = Check("C06", RULE, thorough)
    m = the_model()
    p = m.p
    cc = CC.conc(p, m)
    con = cc.concurrent()
    lockcls = {}
    for q, r in p.records.items():
        if q.startswith("SLAT"):
            ls = [f["name"] for f in r.get("fields", []) if CC.is_lock_type(f.get("t", ""))]
            if ls:
                lockcls[q] = ls
    ent, inl = [], set()
    for i, f in p.funcs.items():
        if "body" not in f or f.get("defaulted") or f.get("implicit"):
            continue
        if not (i in con or f.get("rec") in lockcls or uses_locked_globals(f, cc, p)):
            continue
        ent.append(f)
    runs = {}
    for f in ent:
        try:
            runs[f["id"]] = cc.run(f)
        except TooBig:
            c.ob("analysed within budget", where(f), sig(f), None)
            continue
        inl |= set(runs[f["id"]][0].inl) - {f["id"]}
    entries = []
    for f in ent:
        if f["id"] not in runs:
            continue
        if f.get("islambda") and f["id"] in inl:
            continue
        if helper(cc, p, f, runs):
            c.count("helpers_analysed_in_their_callers")
            continue
        entries.append(f)
        c.functions.add(f["id"])
    tab = {}
    unk = 0
    for f in entries:
        cl, outs = runs[f["id"]]
        unk += cl.unknown
        for a in cl.acc:
            if a.key[0] == "field":
                cls = a.key[1]
                if f["k"] in ("ctor", "dtor"):
                    continue
                if cls.startswith(model.VALUE_CLASSES) or owner(p, cls, a.key[2]) is None:
                    continue
                cls = owner(p, cls, a.key[2])
                t = ftype(p, cls, a.key[2])
                if t is None or "atomic<" in t or CC.is_lock_type(t):
                    continue
                if f["id"] not in con and cls not in lockcls:
                    continue
                key = ("field", cls, a.key[2])
            else:
                t = gtype(p, a.key[1])
                if "atomic<" in t or CC.is_lock_type(t) or t.startswith("const "):
                    continue
                if f["id"] not in con and not container(t):
                    continue
                path = tuple(x for x in reversed(list(path_of(a.loc))))
                key = ("global", a.key[1], ".".join(path[:1]))
            tab.setdefault(key, []).append((a, f))
    c.count("shared_variables_seen", len(tab))
    for key in sorted(tab, key=str):
        acc = tab[key]
        ws = [x for x in acc if x[0].write]
        if not ws:
            continue
        c.count("written_shared_variables")
        c.sites |= {x[0].at for x in acc}
        name = short(".".join(x for x in key[1:] if x))
        locks = [stable(x[0].held, x[0]) for x in acc]
        com = frozenset.intersection(*locks) if locks else frozenset()
        if com:
            c.ob("accesses have a lock in common", name, name, True)
            continue
        # which lock guards it?
        cnt = {}
        for ls in locks:
            for l in ls:
                cnt[l] = cnt.get(l, 0) + 1
        if unk and not cnt:
            c.ob("accesses have a lock in common", name, name, None, "lock operations on unresolved locks")
            continue
        best = max(sorted(cnt, key=str), key=lambda l: cnt[l]) if cnt else None
        bad = [x for x, ls in zip(acc, locks) if best not in ls]
        if best is None and not any(f["id"] in con for _, f in ws) and key[0] == "field" and key[1] not in lockcls:
            continue
        seen = set()
        for a, f in bad:
            k = (a.at, a.write)
            if k in seen:
                continue
            seen.add(k)
            if not a.write and any((a.at, True) == (y[0].at, y[0].write) for y in bad):
                continue
            c.ob("accesses have a lock in common", at_file(p, a, f), "%s %s in %s" % (name, "written" if a.write else "read", sig(f)), False,
                 "without holding %s" % (show(best) if best is not None else "any lock"))
    pins(c, cc, lockcls)
    c.need("accesses have a lock in common", 4)
    return c.finish()


def at_file(p, a, f):
    return a.at


def path_of(l):
    r = root(l)
    while l != r:
        if l.op == "f":
            yield l.a[1]
        l = l.a[0]


def stable(held, a):
    """Locks that identify one lock for all entries: of this object, global
    ones and critical sections; element locks (of a record in a container) are not guards."""
    return frozenset(l for l in held if not any(t.op == "idx" for t in subterms(l)))


def helper(cc, p, f, runs):
    if f.get("rec") and f.get("access", 0) == 0 and not f.get("islambda"):
        return False
    cs = {x for x in cc.callers.get(f["id"], ()) if x in p.funcs}
    if not cs:
        return False
    for x in cs:
        r = runs.get(x)
        if r is None:
            try:
                r = cc.run(p.funcs[x])
            except TooBig:
                return False
        if f["id"] not in r[0].inl:
            return False
    return True


def container(t):
    return any(x in t for x in ("map<", "vector<", "list<", "set<", "deque<"))


def uses_locked_globals(f, cc, p):
    """Free functions which use a lock, or a container that a function with a lock uses."""
    if f.get("rec"):
        return False
    if cc.direct.get(f["id"]):
        return True
    if not hasattr(cc, "_lg"):
        cc._lg = set()
        for i, d in cc.direct.items():
            if d and i in p.funcs and not p.funcs[i].get("rec"):
                cc._lg |= globs(p, p.funcs[i])
    return bool(globs(p, f) & cc._lg)


def globs(p, f):
    return {e.get("d") for e in CC.walk(f.get("body") or []) if e.get("k") == "ref" and e.get("d") in p.vars
            and container((p.vars[e["d"]].get("t") or ""))}


def owner(p, cls, field):
    for q in [cls] + p.bases(cls):
        for f in p.records.get(q, {}).get("fields", []):
            if f["name"] == field:
                return q
    return None


def ftype(p, cls, field):
    for f in p.records.get(cls, {}).get("fields", []):
        if f["name"] == field:
            return f.get("t", "")
    return None


def gtype(p, q):
    if not hasattr(p, "_gt"):
        p._gt = {}
        for v in p.vars.values():
            p._gt[v.get("q") or v.get("n")] = v.get("t", "")
    return p._gt.get(q, "")


# -------------------------------------------------------------- pinned records
class Pins(CC.LockClient):
    """dom: (locks held, records changed) of the lock client, extended with
    ('pin', element) terms: elements changed since the start."""

    def __init__(self, conc, this, f, conts):
        super().__init__(conc, this, f)
        self.conts = conts            # container locations
        self.waits, self.erases = [], []

    def elem(self, l):
        while l is not None and l.op == "f":
            if l.a[0].op == "idx" and l.a[0].a[0] in self.conts:
                return l.a[0]
            l = l.a[0]
        return None

    def on(self, w, ev):
        d = ev.d
        if ev.k == "lock" and "unset" not in d["op"] and "init" not in d["op"] and len(d["locs"]) == 1 and not self.I.mute:
            l = next(iter(d["locs"]))
            el = self.elem(l)
            if el is not None:
                held = w.dom or frozenset()
                guard = [h for h in held if h.op == "f" and h.a[0] == self.this]
                self.waits.append((ev.at(), l, bool(guard), mk("pin", el) in held, mk("own", el) in held))
        if ev.k == "lock" and d["op"].startswith("omp_init"):
            for l in d["locs"]:
                el = self.elem(l)
                if el is not None:
                    w = w.copy()
                    w.dom = (w.dom or frozenset()) | {mk("own", el)}
                    return [w]
        r = super().on(w, ev)
        ws = r if r is not None else [w]
        if ev.k == "write":
            for l in d["locs"]:
                el = self.elem(l)
                if el is not None and l.op == "f":
                    out = []
                    for w1 in ws:
                        w1 = w1.copy()
                        w1.dom = (w1.dom or frozenset()) | {mk("pin", el)}
                        out.append(w1)
                    ws = r = out
        if ev.k == "cmod" and d.get("n") in ("erase", "clear") and not self.I.mute:
            for l in d["cont"]:
                if l in self.conts:
                    ok = any(mentions(t, l) for t, b in w.facts)
                    self.erases.append((ev.at(), l, ok, self.waited(w, l) if ok else None))
        return r


    def waited(self, w, cont):
        """A count of waiting threads, above zero, which everything known where
        the record is removed allows (None: there is none, or it is not known)."""
        fs = [(t, b) for t, b in w.facts if mentions(t, cont)]
        base = {x for t, _ in fs for x in subterms(t) if isinstance(x, T) and x.op == "f" and x.a[0].op == "idx" and x.a[0].a[0] == cont}
        if len(base) != 1:
            return None
        x = base.pop()
        cur = self.I.read1(w, x)
        if len(cur) != 1:
            return None
        cur = next(iter(cur))
        for k in range(-2, 8):
            try:
                if value(cur, x, k) > 0 and all(bool(value(t, x, k)) == b for t, b in fs):
                    return value(cur, x, k)
            except ValueError:
                return None
        return None


def value(t, x, k):
    """The integer value of a term over x, with x = k."""
    if t == x:
        return k
    if t.op == "lit" and isinstance(t.a[0], int):
        return t.a[0]
    if t.op in ("eq", "lt", "le"):
        a, b = value(t.a[0], x, k), value(t.a[1], x, k)
        return a == b if t.op == "eq" else a < b if t.op == "lt" else a <= b
    if t.op == "bin" and t.a[0] in ("+", "-", "*") and len(t.a) == 3:
        a, b = (value(y, x, k) if isinstance(y, T) else value(next(iter(y)), x, k) for y in t.a[1:])
        return a + b if t.a[0] == "+" else a - b if t.a[0] == "-" else a * b
    raise ValueError(t)


def mentions(t, cont):
    return any(x.op == "f" and x.a[0].op == "idx" and x.a[0].a[0] == cont for x in subterms(t) if isinstance(x, T))


def pins(c, cc, lockcls):
    p = cc.p
    for q, r in sorted(p.records.items()):
        if not q.startswith("SLAT"):
            continue
        conts = []
        for f in r.get("fields", []):
            t = f.get("t", "")
            if container(t) and any(CC.is_lock_type(g.get("t", "")) for x in inner(p, t, q) for g in p.records.get(x, {}).get("fields", [])):
                conts.append(f["name"])
        if not conts:
            continue
        th = mk("obj", q)
        locs = {mk("f", th, n) for n in conts}
        for f in p.methods_of.get(q, []):
            if "body" not in f or f["k"] in ("ctor", "dtor") or f.get("implicit"):
                continue
            cl = Pins(cc, th, f, locs)
            I = Interp(p, cl)
            cl.I = I
            I.run(f, this=S(th), world=World(dom=frozenset()))
            for at, l, guard, pin, own in cl.waits:
                c.ob("a record is pinned before it is waited for", at, "%s: %s" % (sig(f), show(l)), guard or pin or own,
                     "the record can be removed while this thread waits for its lock")
            for at, l, ok, k in cl.erases:
                if k is not None:
                    c.ob("a record is removed only when nobody waits", at, "%s: %s" % (sig(f), show(l)), False, "it is removed while %d threads wait for it" % k if k > 1 else "it is removed while a thread waits for it")
                    continue
                c.ob("a record is removed only when nobody waits", at, "%s: %s" % (sig(f), show(l)), ok,
                     "nothing on the path says that no thread is waiting for the record")


def inner(p, t, q):
    out = []
    for x in p.records:
        if (x.startswith(q + "::") and x.split("::")[-1] + ">" in t.replace(" ", "") or t.replace(" ", "").endswith(("," + x + ">", "<" + x + ">"))) and any(CC.is_lock_type(g.get("t", "")) for g in p.records[x].get("fields", [])):
            out.append(x)
    return out
