"""C15: parallel loops do not race."""
from .common import *
from .. import conc as CC

RULE = ("For every OpenMP parallel loop and set of sections: each variable declared outside the region that the region "
        "writes (assignment, increment, modifying member call, argument bound to a non-const reference) must be private "
        "or a reduction of the region, written inside a critical or atomic construct, or be an element of a container "
        "selected by the loop counter itself (and then read in the region only at that element; vectors of bool pack "
        "several elements in one word and are excluded). Different sections never write, or write and read, the same "
        "variable. Locals of lambdas and of blocks inside the region are private.")

MUT = {"push_back", "emplace_back", "insert", "emplace", "erase", "clear", "resize", "pop_back", "push_front", "pop_front",
       "assign", "swap", "append", "reserve"}


def run(thorough=False):
    c = Check("C15", RULE, thorough)
    m = the_model()
    p = m.p
    cc = CC.conc(p, m)
    for f, r in cc.regions:
        if f["file"].endswith("_test.cpp"):
            continue
        c.functions.add(f["id"])
        c.count("parallel_regions")
        for u in units(r):
            judge(c, p, f, r, u)
    c.need("writes of a parallel region are private to the thread", 5)
    return c.finish()


def units(r):
    d = r["d"]
    if "sections" in d:
        return [sections(r)]
    return [r.get("b")]


def sections(r):
    """Bodies of the sections; code outside a section directive is the first section."""
    out = []
    for e in (r.get("b") or {}).get("s", []) if (r.get("b") or {}).get("k") == "block" else [r.get("b")]:
        out.append(e)
    return {"k": "sections", "s": out}


def base(e):
    """(root expression, [(kind, index)]) of an lvalue."""
    path = []
    while isinstance(e, dict):
        k = e.get("k")
        if k == "mem":
            path.append(("f", e.get("n")))
            if (e.get("b") or {}).get("k") == "this":
                return ("this", e.get("n")), path[:-1]
            e = e.get("b")
        elif k == "idx":
            path.append(("i", e.get("i")))
            e = e.get("a")
        elif k == "call" and e.get("n") in ("operator[]", "at"):
            path.append(("i", (e.get("a") or [None])[0]))
            e = e.get("o")
        elif k == "call" and e.get("n") in ("operator->", "operator*", "get", "front", "back", "begin", "end"):
            path.append(("d", e["n"]))
            e = e.get("o")
        elif k == "un" and e.get("op") in ("*", "&"):
            path.append(("d", e["op"]))
            e = e.get("e") or e.get("a")
        elif k == "cast":
            e = e.get("e") or e.get("a")
        elif k == "ref":
            return (e.get("d"), e.get("n")), path
        else:
            return None, path
    return None, path


def writes(s, p):
    """(expression written, node, how)"""
    for e in CC.walk(s):
        k = e.get("k")
        if k == "assign":
            yield e.get("a"), e, "assigned"
        elif k == "un" and e.get("op") in ("++", "--", "post++", "post--", "++post", "--post"):
            yield e.get("e") or e.get("a"), e, "changed"
        elif k == "call":
            if e.get("n", "") in ("operator=", "operator+=", "operator-=", "operator*=", "operator/=", "operator++", "operator--") and e.get("o"):
                yield e["o"], e, "assigned"
            elif e.get("o") is not None and e.get("n") in MUT and not e.get("inrepo"):
                yield e["o"], e, "changed by %s()" % e["n"]
            pts = e.get("pt", [])
            for a, t in zip(e.get("a", []), pts):
                t = t.strip()
                if t.endswith("&") and not t.endswith("&&") and not t.startswith("const "):
                    yield a, e, "passed to %s by reference" % e.get("n")
            if e.get("n", "").startswith("operator") and e.get("op") in ("+=", "-=", "*=", "/=") and not e.get("o") and e.get("a"):
                yield e["a"][0], e, "assigned"


def inside(s):
    ids = set()
    for e in CC.walk(s):
        if e.get("k") == "decl":
            for v in e.get("vars", []):
                if not v.get("static"):
                    ids.add(v["id"])
        elif e.get("k") == "rangefor":
            v = e.get("v") or {}
            if isinstance(v, dict) and v.get("id"):
                ids.add(v["id"])
        elif e.get("k") == "try":
            for h in e.get("h", []):
                v = h.get("v")
                if isinstance(v, dict) and v.get("id"):
                    ids.add(v["id"])
    return ids


def refs_inside(s):
    """References declared inside the region -> initialiser."""
    out = {}
    for e in CC.walk(s):
        if e.get("k") == "decl":
            for v in e.get("vars", []):
                if v.get("ref") and v.get("i") is not None:
                    out[v["id"]] = v["i"]
        elif e.get("k") == "rangefor":
            v = e.get("v") or {}
            if isinstance(v, dict) and v.get("ref") and v.get("id"):
                out[v["id"]] = {"k": "call", "n": "operator*", "o": e.get("r"), "a": []}
    return out


def protected(s):
    """ids of nodes inside critical/atomic constructs (and of master/single)."""
    out = set()
    for e in CC.walk(s):
        if e.get("k") == "omp" and any(x in (e.get("d") or "") for x in ("critical", "atomic", "single", "master")):
            for x in CC.walk(e.get("b")):
                out.add(id(x))
    return out


def private(r):
    ids = set()
    for e in CC.walk(r):
        if e.get("k") != "omp":
            continue
        for cl in e.get("cl") or []:
            if any(x in (cl.get("n") or "") for x in ("private", "reduction", "linear")):
                for v in CC.walk(cl.get("a")):
                    if v.get("k") == "ref":
                        ids.add(v.get("d"))
    return ids


def loopvar(r):
    """Counter of the loop a 'for' directive applies to: (id, statement)"""
    b = r.get("b")
    while isinstance(b, dict) and b.get("k") == "block" and len(b.get("s", [])) == 1:
        b = b["s"][0]
    if isinstance(b, dict) and b.get("k") == "for":
        i = b.get("i") or {}
        if i.get("k") == "decl" and i.get("vars"):
            return i["vars"][0]["id"], b
        n = i.get("e") if i.get("k") == "expr" else i
        if isinstance(n, dict) and n.get("k") == "assign":
            (rt, pa) = base(n.get("a"))
            if rt:
                return rt[0], b
    return None, None


def iscounter(e, lv, alias):
    while isinstance(e, dict) and e.get("k") == "cast":
        e = e.get("e") or e.get("a")
    return isinstance(e, dict) and e.get("k") == "ref" and (e.get("d") == lv or e.get("d") in alias)


def aliases(s, lv):
    """Locals that are copies of the counter."""
    out = set()
    for e in CC.walk(s):
        if e.get("k") == "decl":
            for v in e.get("vars", []):
                if v.get("i") is not None and iscounter(v["i"], lv, out):
                    out.add(v["id"])
    return out


def judge(c, p, f, r, u):
    rule = "writes of a parallel region are private to the thread"
    if isinstance(u, dict) and u.get("k") == "sections":
        secs = u["s"]
        wr = []
        for s in secs:
            ins, prot, refs = inside(s), protected(s), refs_inside(s)
            w, rd = {}, set()
            for e, n, how in writes(s, p):
                rt, pa = base(e)
                if rt is None or id(n) in prot:
                    continue
                if rt[0] in refs:
                    rt, pa = base(refs[rt[0]])
                if rt is None or rt[0] in ins or "atomic<" in vtype(f, rt[0], p, rt[1]):
                    continue
                w[rt] = (n, how)
            for e in CC.walk(s):
                if e.get("k") == "ref":
                    rd.add((e.get("d"), e.get("n")))
                elif e.get("k") == "mem" and (e.get("b") or {}).get("k") == "this":
                    rd.add(("this", e.get("n")))
            wr.append((w, rd))
            c.count("sections")
        pri = private(r)
        for i, (w, rd) in enumerate(wr):
            for rt, (n, how) in w.items():
                if rt[0] in pri:
                    continue
                clash = [j for j, (w2, rd2) in enumerate(wr) if j != i and (rt in w2 or rt in rd2)]
                c.sites.add("%s:%s" % (f["file"], n.get("l")))
                c.ob(rule, "%s:%s" % (f["file"], n.get("l")), "%s: %s" % (sig(f), rt[1]), not clash, "%s in one section and used in another" % how)
        return
    lv, loop = loopvar(r)
    omp = [e for e in CC.walk(r.get("b")) if e.get("k") == "omp" and "for" in (e.get("d") or "").split()]
    if lv is None and omp:
        lv, loop = loopvar(omp[0])
    ins, prot, refs, pri = inside(r.get("b")), protected(r.get("b")), refs_inside(r.get("b")), private(r)
    ali = aliases(r.get("b"), lv)
    own = {}
    n0 = 0
    seen = set()
    for e, n, how in writes(r.get("b"), p):
        rt, pa = base(e)
        at = "%s:%s" % (f["file"], n.get("l"))
        if rt is None or id(n) in prot:
            continue
        hops = 0
        while rt and rt[0] in refs and hops < 5:
            rt, pa2 = base(refs[rt[0]])
            pa = pa + pa2
            hops += 1
        if rt is None or rt[0] == lv or rt[0] in pri or rt[0] in ins:
            continue
        if "atomic<" in vtype(f, rt[0], p, rt[1]):
            continue
        n0 += 1
        c.sites.add(at)
        ix = [x for x in pa if x[0] == "i"]
        nm = rt[1]
        key = (at, nm)
        if ix and lv is not None and any(iscounter(x[1], lv, ali) for x in ix):
            t = vtype(f, rt[0])
            if "vector<bool" in t:
                c.ob(rule, at, "%s: %s" % (sig(f), nm), False, "elements of a vector of bool share words")
                continue
            own.setdefault(rt, []).append(at)
            c.ob(rule, at, "%s: %s" % (sig(f), nm), True)
        elif ix and any(uses(x[1], {lv} | ali | ins) for x in ix):
            c.ob(rule, at, "%s: %s" % (sig(f), nm), None, "index derived from the counter")
        elif "by reference" in how and not ix:
            # an object passed on: its own synchronisation is judged elsewhere
            t = vtype(f, rt[0])
            ok = None if not t or not scalar(t) else False
            c.ob(rule, at, "%s: %s" % (sig(f), nm), ok, "%s, outside any critical section" % how)
        else:
            c.ob(rule, at, "%s: %s" % (sig(f), nm), False, "%s by every thread, outside any critical section" % how)
    # containers written element-wise are read at the same element only
    for e in CC.walk(r.get("b")):
        if e.get("k") in ("idx",) or (e.get("k") == "call" and e.get("n") in ("operator[]", "at")):
            rt, pa = base(e)
            if rt in own:
                ix = [x for x in pa if x[0] == "i"]
                at = "%s:%s" % (f["file"], e.get("l"))
                if not any(iscounter(x[1], lv, ali) for x in ix):
                    if id(e) in prot:
                        continue
                    c.ob("threads use only their own element", at, "%s: %s" % (sig(f), rt[1]), False, "another thread's element is used")
                else:
                    c.ob("threads use only their own element", at, "%s: %s" % (sig(f), rt[1]), True)
    if not n0:
        c.ob(rule, "%s:%s" % (f["file"], r.get("l")), sig(f), True)


def uses(e, ids):
    return any(x.get("k") == "ref" and x.get("d") in ids for x in CC.walk(e))


def scalar(t):
    t = t.replace("const ", "").strip()
    return t in ("int", "double", "float", "size_t", "long", "unsigned", "bool", "unsigned int", "unsigned long") or t.startswith("std::vector<")


def vtype(f, vid, p=None, name=None):
    if vid == "this" and p is not None:
        return next((x["t"] for x in p.all_fields(f.get("rec") or "") if x["name"] == name), "")
    if p is not None and vid in p.vars:
        return p.vars[vid].get("t", "")
    for x in f.get("params", []):
        if x["id"] == vid:
            return x["t"]
    for e in CC.walk(f.get("body")):
        if e.get("k") == "decl":
            for v in e.get("vars", []):
                if v["id"] == vid:
                    return v["t"]
    return ""
