"""C01: no query returns a result calculated from data the object no longer has."""
from .common import *
from .. import memo

RULE = ("For every result cache of every class, the set of the object's own data its calculation reads is computed by "
        "abstract interpretation of the calculation (through helpers and other caches of the object). Every public "
        "member and every subscription callback is then interpreted with one automaton per cache "
        "(assign to read data -> dirty unless cleared; clear -> cleared; recalculation ends the cleared state): on no "
        "path may the member end with a dirty cache. Data read by a cached calculation may only be assigned by the "
        "class itself.")


def run(thorough=False):
    c = Check("C01", RULE, thorough)
    m = the_model()
    p = m.p
    for cls in m.clients:
        if cls not in m.caches:
            continue
        i = model.info(m, cls)
        rs = i.readsets()
        for k in rs:
            c.count("caches")
            c.count("cache_dependencies", len(rs[k]))
            if k not in i.cacheclo:
                c.ob("cache has an analysable calculation", short(cls), k, None, "the cache's calculation is not a lambda given in a constructor")
        for f, cl, outs in i.method_runs():
            c.functions.add(f["id"])
            judge(c, i, sig(f), where(f), cl, outs)
        for r in i.regs():
            for which in ("changed", "replaced"):
                outs, nv, cls_ = i.run_callback(r, which)
                for cl in cls_:
                    judge(c, i, "%s: callback (%s) of the subscription to %s" % (short(cls), which, names(i, r)), r.at, cl, outs)
        c.functions |= i.funcs
    memo.judge(c, m, "no result is kept other than in a cache that is cleared")
    outside(c, m)
    if c.counts.get("caches", 0) < 8:
        c.broken("only %d result caches found" % c.counts.get("caches", 0))
    c.need("a member leaves no stale result", 5)
    return c.finish()


def names(i, r):
    hs = sorted(show(h).replace("this.", "") for h in i.held(r) if root(h) == i.this)
    return "/".join(hs) or "an element"


def judge(c, i, what, at, cl, outs):
    touched = set()
    bad = {}
    for w, o in outs:
        for mk_ in model.marks(w, "wrote"):
            touched.add(mk_.a[0])
        for mk_ in model.marks(w, "cache"):
            if mk_.a[1] == "dirty":
                bad.setdefault(mk_.a[0], w)
    rs = i.readsets()
    for k, r in rs.items():
        fs = touched & set(r)
        if not fs and k not in bad:
            continue
        ok = k not in bad
        d = ""
        if not ok:
            d = "assigns %s (read by the calculation of %s at %s) and can end without clearing %s" % (
                ", ".join("%s at %s" % (f, cl.wsites.get(f, "?")) for f in sorted(fs)), k, r[sorted(fs)[0]] if fs else "?", k)
        c.ob("a member leaves no stale result", at, "%s / %s" % (what, k), ok, d)
        for f in fs:
            c.sites.add(cl.wsites.get(f))


def outside(c, m):
    """Data feeding a cache is not assigned from outside its class."""
    p = m.p
    fields = {}
    for cls in m.caches:
        rs = model.info(m, cls).readsets()
        own = {cls} | set(p.bases(cls))
        for k, r in rs.items():
            for f in r:
                for o in own:
                    for fd in p.records.get(o, {}).get("fields", []):
                        if fd["name"] == f:
                            fields[fd["id"]] = (cls, f)
    n = 0
    for f in p.funcs.values():
        if "body" not in f:
            continue
        rec = f.get("rec") or ""
        for e in walk(f["body"]):
            if e.get("k") == "assign" or (e.get("k") == "un" and e.get("op", "").strip("post_pre ") in ("++", "--")) or (
                    e.get("k") == "call" and e.get("n") == "operator="):
                t = e.get("a") if e.get("k") == "assign" else (e.get("e") or e.get("o"))
                if isinstance(t, list):
                    t = t[0] if t else None
                if not isinstance(t, dict) or t.get("k") != "mem":
                    continue
                n += 1
                if t.get("f") in fields or t.get("d") in fields:
                    cls, nm = fields.get(t.get("f")) or fields.get(t.get("d"))
                    fam = m.family(cls)
                    if rec in fam or f.get("islambda") or f["id"] in model.info(m, cls).funcs:
                        continue      # interpreted from the class's members
                    c.ob("only the class assigns what its caches read", "%s:%s" % (f["file"], e.get("l")),
                         "%s assigns %s of a %s" % (short(f["q"]), nm, short(cls)), False, "the object's caches are not cleared")
    c.count("member_assignments_scanned", n)


def walk(s):
    st = [s]
    while st:
        x = st.pop()
        if isinstance(x, dict):
            yield x
            st.extend(x.values())
        elif isinstance(x, list):
            st.extend(x)
