"""C05: every operation releases the locks it takes."""
from .common import *
from .. import conc as CC

RULE = ("Every function that takes, or releases, a lock is interpreted as an entry with no lock held; the automaton state is the "
        "set of locks (as locations) held. Every path, including the ones an exception takes, must end with no lock "
        "held; no path releases a lock it does not hold, or takes a lock it already holds. A function that returns "
        "with a lock held on behalf of its caller (a helper) is judged in its callers, into which it is inlined. "
        "Every lock is initialised by the constructors of the class that has it, before use, and not again.")


def run(thorough=False):
    c = Check("C05", RULE, thorough)
    m = the_model()
    p = m.p
    cc = CC.conc(p, m)
    todo = [p.funcs[i] for i, d in cc.direct.items() if d]
    seen = set()
    while todo:
        f = todo.pop()
        if f["id"] in seen:
            continue
        seen.add(f["id"])
        cl, outs = cc.run(f)
        c.functions.add(f["id"])
        for a in cl.acquires:
            c.sites.add(a[2])
        c.count("acquire_sites", len({(a[2], a[0]) for a in cl.acquires}))
        c.count("paths_ends", len(outs))
        at = where(f)
        for kind, pat, l, held in cl.problems:
            c.ob("no lock is taken twice", pat, "%s: %s" % (sig(f), strip(l)), False, kind)
        c.ob("no lock is taken twice", at, sig(f), True)
        left = []
        for w, o in outs:
            ls = set(w.dom or ())
            if f["k"] == "ctor" and o == "throw":
                ls = {l for l in ls if root(l) != cl.this}      # the object ceases to exist
            for l in ls:
                left.append((l, o))
        if not left and not cl.underflow:
            c.ob("every path releases what it took", at, sig(f), True)
            c.ob("only held locks are released", at, sig(f), True)
            continue
        callers = {x for x in cc.callers.get(f["id"], ()) if x in p.funcs}
        inl = [p.funcs[x] for x in callers if f["id"] in cc.run(p.funcs[x])[0].inl]
        if callers and len(inl) == len(callers) and not (f["k"] == "ctor" and any(o == "throw" for _, o in left)):
            c.ob("lock helper is used only where it is analysed", at, sig(f), True)
            todo += inl
            continue
        if cl.unknown:
            c.ob("every path releases what it took", at, sig(f), None, "%d lock operations on unresolved locks" % cl.unknown)
            continue
        for l, o in sorted(set(left), key=str):
            c.ob("every path releases what it took", at, "%s: %s" % (sig(f), strip(l)), False,
                 "still held when the function %s" % ("returns" if o == "return" else "is left by an exception"))
        for l, pat in cl.underflow:
            c.ob("only held locks are released", pat, "%s: %s" % (sig(f), strip(l)), False, "released without being held")
    inits(c, cc)
    c.need("every path releases what it took", 6)
    return c.finish()


def strip(l):
    return show(l).replace("SLAT::", "")


class Init(CC.LockClient):
    """dom: locks of the object initialised so far; also records use of one
    not initialised yet and double initialisation."""

    def __init__(self, conc, this, f):
        super().__init__(conc, this, f)
        self.bad = []
        self.inits = 0

    def on(self, w, ev):
        d = ev.d
        if ev.k == "lock":
            done = w.dom or frozenset()
            for l in d["locs"]:
                if d["op"].startswith("omp_init"):
                    self.inits += not self.I.mute
                    if l in done and not self.I.mute:
                        self.bad.append(("is initialised again", l, ev.at()))
                    w = w.copy()
                    w.dom = done | {l}
                    return [w]
        return None


def inits(c, cc):
    p = cc.p
    done = set()
    for cls, r in sorted(p.records.items()):
        locks = [f for f in r.get("fields", []) if CC.is_lock_type(f.get("t", "")) and "omp_" in f.get("t", "")]
        if not locks or not cls.startswith("SLAT"):
            continue
        ctors = [f for f in p.funcs.values() if f.get("rec") == cls and f["k"] == "ctor" and "body" in f and not f.get("implicit")
                 and not f.get("defaulted") and not copyish(f, cls)]
        for f in ctors:
            th = mk("obj", cls)
            cl = Init(cc, th, f)
            I = Interp(p, cl)
            cl.I = I
            outs = I.run(f, this=S(th), world=World(dom=frozenset()))
            c.functions.add(f["id"])
            for lf in locks:
                loc = mk("f", th, lf["name"])
                ok = all(loc in (w.dom or ()) for w, o in outs if o == "return")
                c.ob("constructors initialise their locks", where(f), "%s: %s" % (sig(f), lf["name"]), ok)
            for b, l, at in cl.bad:
                c.ob("locks are initialised once", at, "%s: %s" % (sig(f), strip(l)), False, b)
            done.add(cls)
        # no other method may initialise (or destroy) the object's own locks
        for f in p.funcs.values():
            if f.get("rec") != cls or f["k"] in ("ctor", "dtor") or "body" not in f:
                continue
            for e in CC.walk(f["body"]):
                if e.get("k") == "call" and e.get("n", "").startswith(("omp_init", "omp_destroy")):
                    for a in e.get("a", []):
                        x = a
                        while isinstance(x, dict) and x.get("k") in ("un", "cast"):
                            x = x.get("e")
                        if isinstance(x, dict) and x.get("k") == "mem" and (x.get("b") or {}).get("k") == "this" and x.get("n") in [l["name"] for l in locks]:
                            c.ob("locks are initialised once", "%s:%s" % (f["file"], e.get("l")), "%s: %s" % (sig(f), x["n"]), False,
                                 "the lock of an object in use is initialised again")
    for cls in done:
        c.count("classes_with_locks")


def copyish(f, cls):
    ps = f.get("params", [])
    return len(ps) == 1 and cls.split("::")[-1].split("<")[0] in ps[0]["t"] and "&" in ps[0]["t"]
