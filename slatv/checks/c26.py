"""C26: exceptions in parallel calculations reach the caller."""
from .common import *
from .. import conc as CC

RULE = ("Functions an explicit exception can leave are found by propagation over the call graph (virtual calls: every "
        "override; cached calculations: the lambdas given to that cache), stopping at handlers for every exception. "
        "Inside an OpenMP region (an exception that leaves it ends the process) a call of, or a throw in, such a "
        "function must lie in a try block whose handler takes everything, does not throw, and keeps the exception in "
        "a variable which the function rethrows after the region, whatever else holds. In destructors, which may not throw, the same "
        "functions are not called outside such a try block.")


def run(thorough=False):
    c = Check("C26", RULE, thorough)
    m = the_model()
    p = m.p
    cc = CC.conc(p, m)
    c.count("functions_exceptions_can_leave", len(cc.throwing))
    for f, r in cc.regions:
        if f["file"].endswith("_test.cpp"):
            continue
        c.functions.add(f["id"])
        c.count("parallel_regions")
        bad, kept, n = [], {}, [0]
        scan(cc, r.get("b"), None, bad, kept, n)
        at = "%s:%s" % (f["file"], r.get("l"))
        for e, g, in bad:
            c.ob("no exception leaves a parallel region", "%s:%s" % (f["file"], e.get("l")), "%s: %s" % (sig(f), what(p, e)), False,
                 "ends the process; thrown in " + chain(cc, g))
        if not bad:
            c.ob("no exception leaves a parallel region", at, sig(f), True)
        for h, es in kept.items():
            dst, ht = es
            hat = "%s:%s" % (f["file"], ht.get("l"))
            if dst is None:
                c.ob("the exception is kept", hat, sig(f), False, "the handler drops the exception: the caller gets an undefined result")
                continue
            c.ob("the exception is kept", hat, "%s: %s" % (sig(f), dst[1]), True)
            ok, det = rethrown(p, f, r, dst)
            c.ob("the kept exception is rethrown", at, "%s: %s" % (sig(f), dst[1]), ok, det)
        c.count("throwing_calls_in_regions", n[0])
    # destructors
    for f in p.funcs.values():
        if f["k"] != "dtor" or "body" not in f or f["file"].endswith("_test.cpp"):
            continue
        bad, kept, n = [], {}, [0]
        scan(cc, f["body"], None, bad, kept, n)
        c.functions.add(f["id"])
        for e, g in bad:
            c.ob("destructors do not throw", "%s:%s" % (f["file"], e.get("l")), "%s: %s" % (sig(f), what(p, e)), False, "thrown in " + chain(cc, g))
        if not bad:
            c.ob("destructors do not throw", where(f), sig(f), True)
    c.need("no exception leaves a parallel region", 5)
    return c.finish()


def chain(cc, g):
    out, x = [], g
    while x and len(out) < 8:
        out.append(short(cc.p.funcs[x]["q"]) if x in cc.p.funcs else str(x))
        x = cc.throwvia.get(x)
    return " > ".join(out)


def what(p, e):
    if e.get("k") == "throw":
        return "throw"
    if e.get("k") == "mem":
        return e.get("n", "?")
    o = e.get("o")
    if e.get("n") == "operator()" and isinstance(o, dict):
        return o.get("n", "") + "()"
    return "%s()" % (e.get("n") or e.get("cls") or "?")


def targets(cc, e):
    out = []
    k = e.get("k")
    if k in ("call", "ctor", "memfn") and e.get("f"):
        if not CC.M.is_cache_t(e.get("cl") or ""):
            out.append(e["f"])
            if e.get("virt"):
                out += cc.over(e["f"])
        elif e.get("n") == "operator()":
            o = e.get("o")
            fl = cc.fieldclo.get(o.get("f")) if isinstance(o, dict) and o.get("k") == "mem" else None
            out += list(fl if fl is not None else cc.cache_closures())
    elif k == "lambda":
        out.append(e["f"])
    return out


def catchall(h):
    return not h.get("v") or h.get("t") == "..."


def scan(cc, x, tr, bad, kept, n):
    if isinstance(x, list):
        for y in x:
            scan(cc, y, tr, bad, kept, n)
        return
    if not isinstance(x, dict):
        return
    k = x.get("k")
    if k == "try":
        hs = [h for h in x.get("h", []) if catchall(h)]
        scan(cc, x["b"], hs[0] if hs else tr, bad, kept, n)
        for h in x.get("h", []):
            scan(cc, h.get("b"), tr, bad, kept, n)
        return
    hit = None
    if k == "throw":
        hit = True
        g = None
        if x.get("e") is None and tr is None:
            bad.append((x, None))
        elif tr is None:
            bad.append((x, None))
    else:
        for t in targets(cc, x):
            if t in cc.throwing:
                hit = True
                if tr is None:
                    bad.append((x, t))
                break
    if hit:
        n[0] += 1
        if tr is not None and id(tr) not in kept:
            kept[id(tr)] = (keeps(cc.p, tr), tr)
    for y in x.values():
        if isinstance(y, (dict, list)):
            scan(cc, y, tr, bad, kept, n)


def deep(p, x, lambdas=False):
    """The statement, and those of the functions it calls."""
    todo, seen = [x], set()
    while todo:
        for e in CC.walk(todo.pop()):
            yield e
            g = e.get("f") if e.get("k") in ("call", "lambda", "ctor") else None
            if isinstance(g, str) and g not in seen and p.funcs.get(g, {}).get("body") and (e["k"] == "lambda" or not lambdas):
                seen.add(g)
                todo.append(p.funcs[g]["body"])


def keeps(p, h):
    """Variable the handler stores std::current_exception() in."""
    from .c15 import base
    for e in deep(p, h.get("b"), True):
        tgt = None
        if e.get("k") == "assign":
            tgt, v = e.get("a"), e.get("b")
        elif e.get("k") == "call" and e.get("n") == "operator=":
            tgt, v = e.get("o"), e.get("a")
            if tgt is None and len(v or []) == 2:
                tgt, v = v[0], v[1]
        elif e.get("k") == "call" and e.get("n") in ("push_back", "emplace_back") and e.get("o"):
            tgt, v = e.get("o"), e.get("a")
        else:
            continue
        if any(y.get("k") == "call" and y.get("n") == "current_exception" for y in CC.walk(v)):
            rt, pa = base(tgt)
            if rt:
                return rt
    # handed to something else: assume it keeps it
    for e in deep(p, h.get("b")):
        if e.get("k") == "call" and e.get("n") == "current_exception":
            return ("?", "?")
    return None


def rethrown(p, f, r, dst):
    """A statement of the function after (not in) the region rethrows the variable, or anything derived from it."""
    if dst[0] == "?":
        return None, ""
    inreg = {id(x) for x in deep(p, r, True)}
    der = {dst[0]}
    for _ in range(3):
        for e in CC.walk(f["body"]):
            if id(e) in inreg:
                continue
            if e.get("k") == "rangefor" and any(y.get("d") in der for y in CC.walk(e.get("r"))):
                v = e.get("v") or {}
                if isinstance(v, dict) and v.get("id"):
                    der.add(v["id"])
            if e.get("k") == "decl":
                for v in e.get("vars", []):
                    if v.get("i") is not None and any(y.get("d") in der for y in CC.walk(v["i"])):
                        der.add(v["id"])
    flags = {y.get("d") for e in inreg_assigned(p, r) for y in CC.walk(e)} - {None}
    best = (False, "nothing after the region rethrows it")
    after = [False]
    early = []

    def rethrows(e):
        return any(g.get("k") == "call" and (g.get("n") == "rethrow_exception" or g.get("inrepo")) and id(g) not in inreg and
                   any(y.get("d") in der or (dst[0] == "this" and y.get("n") == dst[1]) for y in CC.walk(g.get("a"))) for g in deep(p, e, True))

    def visit(x, guards):
        nonlocal best
        if isinstance(x, list):
            for y in x:
                visit(y, guards)
            return
        if not isinstance(x, dict):
            return
        if x is r or id(x) == id(r):
            after[0] = True
            return
        k = x.get("k")
        if k in ("if", "for", "while", "do", "rangefor", "block", "try", "switch", "omp", "case", "default"):
            if k == "if":
                visit(x.get("init"), guards)
                visit(x.get("t"), guards + [("if", x.get("c"))])
                visit(x.get("e"), guards + [("else", x.get("c"))])
            elif k == "for":
                visit(x.get("b"), guards + [("for", x)])
            else:
                for z in ("b", "s", "h"):
                    visit(x.get(z), guards + ([(k, x)] if k == "rangefor" else []))
            return
        if not after[0]:
            return
        if k == "return":
            if not rethrows(x) and best[0] is False:
                early.append((x, guards))
            return
        if rethrows(x):
            if best[0] is False:
                best = judge_guards(guards, der, flags, r)
                if best[0] is not False:
                    for y, g in early:
                        if not any(mentions_any(z[1], der | flags) for z in g if z[0] in ("if", "else")):
                            best = (False, "the function can return before it is rethrown (line %s)" % y.get("l"))
    visit(f["body"], [])
    if best[0] is False and not best[1].startswith(("it is only", "the loop", "the function can")):
        # in a way not followed above: anything which rethrows it
        if any(id(e) not in inreg and e.get("k") in ("call",) and rethrows(e) for e in CC.walk(f["body"])):
            return None, ""
    return best


def inreg_assigned(p, r):
    """What the handlers of a region assign."""
    for t in CC.walk(r):
        if t.get("k") == "try":
            for h in t.get("h", []):
                for e in CC.walk(h.get("b")):
                    if e.get("k") == "assign":
                        yield e.get("a")
                    elif e.get("k") == "call" and e.get("n") in ("operator=", "push_back", "emplace_back", "store"):
                        yield e.get("o") or (e.get("a") or [None])[0]
                    elif e.get("k") == "un" and e.get("op") in ("++", "--"):
                        yield e.get("e")


def mentions_any(x, ds):
    return any(y.get("d") in ds for y in CC.walk(x))


def parts(c):
    while isinstance(c, dict) and c.get("k") in ("paren", "cast", "icast"):
        c = c.get("e")
    if isinstance(c, dict) and c.get("k") == "bin" and c.get("op") == "&&":
        return parts(c["a"]) + parts(c["b"])
    return [c]


def judge_guards(guards, der, flags, r):
    """The statement is reached whenever the variable holds an exception."""
    for k, x in guards:
        if k == "if":
            for y in parts(x):
                if not mentions_any(y, der | flags):
                    return False, "it is only rethrown if another condition holds (line %s)" % (y or {}).get("l")
                if isinstance(y, dict) and y.get("k") == "un" and y.get("op") == "!" and mentions_any(y, der) and (y.get("e") or {}).get("n") == "operator bool":
                    return False, "it is only rethrown if there is none (line %s)" % y.get("l")
        elif k == "else":
            if not mentions_any(x, der | flags) and not any(y.get("n") == "rethrow_exception" for y in CC.walk(x)) and not excish(x):
                return False, "it is only rethrown if another condition does not hold (line %s)" % (x or {}).get("l")
        elif k == "for":
            ok, d = whole(x, r)
            if ok is False:
                return False, d
    return True, ""


def excish(x):
    return any("exception_ptr" in str(y.get("t", "")) for y in CC.walk(x))


def whole(x, r):
    """The loop visits as many elements as the region's own."""
    rl = next((y for y in CC.walk(r) if y.get("k") == "for"), None)
    v = (x.get("i") or {}).get("vars") or [None]
    c = x.get("c") or {}
    if rl is None or len(v) != 1 or not isinstance(v[0], dict):
        return None, ""
    i = v[0].get("i") or {}
    while isinstance(i, dict) and i.get("k") in ("cast", "icast", "paren"):
        i = i.get("e") or {}
    up = any(y.get("k") == "un" and y.get("op") == "++" for y in CC.walk(x.get("n")))
    ri = (((rl.get("i") or {}).get("vars") or [{}])[0].get("i") or {})
    if up and i.get("k") == "lit" and ri.get("k") == "lit" and isinstance(i.get("v"), int) and i["v"] > ri.get("v", 0):
        return False, "the loop which rethrows starts at %s" % i["v"]
    if up and c.get("k") == "bin" and c.get("op") == "<" and (c.get("a") or {}).get("d") == v[0].get("id"):
        n = c.get("b") or {}
        while isinstance(n, dict) and n.get("k") in ("cast", "icast", "paren"):
            n = n.get("e") or {}
        if n.get("k") == "bin" and n.get("op") in ("-", "/") and (n.get("b") or {}).get("k") == "lit":
            return False, "the loop which rethrows stops before the last element"
    if up and c.get("k") == "bin" and c.get("op") == "<" and (c.get("a") or {}).get("k") == "bin" and c["a"].get("op") == "+":
        return False, "the loop which rethrows stops before the last element"
    return None, ""
