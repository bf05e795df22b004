"""C25: the Python binding asks the library the same question."""
from .. import binding
from ..binding import *

RULE = ("Every class of the Python binding holds one library object. Each of its methods is interpreted abstractly with the "
        "library's functions uninterpreted; on every returning path the value must be the answer of the library's function "
        "of the same name on the wrapped object, for the same arguments in the same order (element by element for the "
        "list forms; wrapped again where it is an object), and an operation must be exactly one call of the library's "
        "operation of that name. The library's function is found by name: nothing is matched against the text.")

Q_ = "a query is the wrapped object's query"
O = "an operation is the wrapped object's operation"
G = "a setting is passed on"


def lower(n):
    return n.lower()


def candidates(p, cls, name):
    """Functions and cached calculations of the library class, by name."""
    names = {}
    for c in [cls] + p.bases(cls):
        for f in p.methods_of.get(c, []):
            names.setdefault(f["name"].lower(), set()).add(f["name"])
        for f in p.records.get(c, {}).get("fields", []):
            if "Cached" in f.get("t", ""):
                names.setdefault(f["name"].lower(), set()).add(f["name"])
        r = p.records.get(c)
        for mt in (r or {}).get("methods", []):
            if mt.get("name"):
                names.setdefault(mt["name"].lower(), set()).add(mt["name"])
    n = name.lower()
    for x in (n, n[4:] if n.startswith("get_") else None, n[5:] if n.startswith("bulk_") else None):
        if x and x in names:
            return sorted(names[x])
    return []


def unwrapped(p, f):
    """Arguments as the library gets them."""
    out = []
    for i, x in enumerate(f["params"]):
        t = x["t"].replace("const ", "").rstrip(" *&")
        wf = wrapper_field(p, t)
        a = param("a%d" % i)
        out.append(fld(a, wf[0]) if wf else a)
    return out


def run(thorough=False):
    c = Check("C25", RULE, thorough)
    m = the_model()
    p = m.p
    for cls in sorted(p.records):
        wf = wrapper_field(p, cls)
        if not wf:
            continue
        c.count("binding_classes")
        for f in sorted(p.methods_of.get(cls, ()), key=lambda f: f["line"]):
            if f["k"] != "method" or "body" not in f or f["name"].startswith("operator") or f.get("access", 0) not in (0, "public"):
                continue
            guarded(c, Q_, where(f), sig(f), lambda: method(c, m, f, cls, wf))
    free(c, m)
    c.need(Q_, 30)
    c.need(O, 8)
    return c.finish()


def method(c, m, f, cls, wf):
    p = m.p
    this = fld(obj(cls), wf[0])
    outs, I = run_(c, p, f)
    args = unwrapped(p, f)
    names = candidates(p, wf[1], f["name"])
    ret = f.get("ret", "")
    n = f["name"]
    if n == "AreSame":
        judge_value(c, Q_, where(f), sig(f), outs, p, I, lambda fs: [mk("eq", this.t, args[0].t), mk("eq", args[0].t, this.t)])
        return
    if cls == "CompGroup" and n == "E_cost":
        y, r = args
        E_ = [call("E_annual_cost", this), cached(this, "E_annual_cost")]
        number(c, f, outs, I, [(1 - exp(-r * y)) / r * e for e in E_], {"E_annual_cost"})
        return
    if cls == "Structure" and n in ("ComponentsByEDP", "ComponentsByFragility"):
        return
    if len(names) != 1:
        c.count("functions_without_a_library_counterpart")
        return
    name = names[0]
    if ret == "void":
        operation(c, f, outs, p, I, name, this, args)
        return
    if n in ("DeaggregatedCost", "CostsByFate"):
        parts = ("first", "second") if n == "DeaggregatedCost" else ("repair", "demolition", "collapse")
        v = call(name, this, *args)
        tuple_(c, f, outs, p, I, [[mk("wrap", S(mk("f", v.t, x))), mk("wrap", S(mk(x, v.t)))] for x in parts])
        return
    alts = [call(name, this, *args), cached(this, name, *args)]
    if "vector" in ret and f["params"] and "vector" in f["params"][0]["t"]:
        outs2, direct = [], 0
        for w, o in outs:
            if o == "return" and w.ret and len(w.ret) == 1 and norm_calls(one(w.ret)) in [norm_calls(a.t) for a in alts]:
                direct += 1
                continue
            outs2.append((w, o))
        if direct and not any(o == "return" for w, o in outs2):
            c.ob(Q_, where(f), sig(f), True)
            return
        if any(w.ret and one(w.ret).op == "m" for w, o in outs2 if o == "return" and w.ret and len(w.ret) == 1):
            judge_value(c, Q_, where(f), sig(f), outs2, p, I, lambda fs: [a.t for a in alts])
            return
        judge_list(c, Q_, where(f), sig(f), outs2, "num", size(args[0]),
                   lambda i, fs: [call(name, this, idx(args[0], i), *args[1:]), cached(this, name, idx(args[0], i), *args[1:])], vocab(outs2, name), I)
        return
    if ret in ("double", "int", "bool", "unsigned int", "long"):
        number(c, f, outs, I, alts, {name})
        return
    wrapped = wrapper_field(p, ret.replace("const ", "").rstrip(" *&"))
    judge_value(c, Q_, where(f), sig(f), outs, p, I,
                lambda fs: [mk("wrap", S(norm_calls(a.t))) if wrapped else a.t for a in alts])


def run_(c, p, f):
    outs, I = binding.run(p, f)
    c.functions |= I.inlined | {f["id"]}
    return outs, I


def vocab(outs, name):
    """The words of the comparison: the specified call, and what is called in
    its place; a value of several calls may be another way of saying the same."""
    out = {name}
    for w, o in outs:
        if o != "return":
            continue
        cs = {}
        for r in (w.ret or ()):
            for x in subterms(norm_calls(r)):
                if x.op == "m":
                    cs.setdefault(last(x.a[0]), set()).add(x)
        if len(cs) == 1:
            out |= set(cs)
    return out


def number(c, f, outs, I, alts, names):
    voc = set(names)
    for w, o in outs:
        if o == "return":
            cs = {last(x.a[0]) for r in (w.ret or ()) for x in subterms(norm_calls(r)) if x.op == "m"}
            if len(cs) == 1:
                voc |= cs | {"operator()"}
    judge(c, Q_, where(f), sig(f), outs, "num", lambda fs: list(alts), voc, I=I)


def unset(r):
    """The first element of a list of known size which keeps its initial value, if one does."""
    if r.op != "rec" or len(r.a) < 2 or not isinstance(r.a[1], T) or r.a[1].op != "sized" or len(r.a[1].a[0]) != 1:
        return None
    n = one(r.a[1].a[0])
    ks = dict(r.a[0])
    if n.op != "lit" or not isinstance(n.a[0], int) or any(ks.pop(k, frozenset()) - {mk("dflt")} for k in ("*", STAR)):
        return None
    if not all(isinstance(k, int) or isinstance(k, T) and k.op == "lit" for k in ks):
        return None
    got = {k if isinstance(k, int) else k.a[0] for k in ks}
    return next((i for i in range(n.a[0]) if i not in got), None)


def tuple_(c, f, outs, p, I, want):
    bad = und = None
    n = 0
    for w, o in outs:
        if o != "return":
            continue
        n += 1
        R = Resolver(p, I, w)
        vs = norm_calls(R.vals(w.ret or frozenset()))
        its = items(vs) if len(vs) == 1 else None
        left = unset(one(vs)) if its is None and len(vs) == 1 else None
        if left is not None:
            bad = "element %d is never set" % left
            continue
        if its is None:
            und = "the list is not understood: %s" % ", ".join(show(v)[:100] for v in vs)
            continue
        if len(its) != len(want):
            bad = "%d elements, specified: %d" % (len(its), len(want))
            continue
        for k, (x, ws) in enumerate(zip(its, want)):
            ws = [norm_calls(y) for y in ws]
            if len(x) != 1:
                und = "element %d has several values" % k
                continue
            r, d = equal(one(x), ws, w, I, "term")
            if r is False:
                bad = "element %d: %s" % (k, d)
            elif r is None:
                und = d
    c.ob(Q_, where(f), sig(f), False if bad else None if und or not n else True, bad or und or "")


def operation(c, f, outs, p, I, name, this, args, rule=O):
    want = (name, S(norm_calls(this.t)) if this is not None else None, tuple(S(norm_calls(term(a))) for a in args))
    bad = und = None
    n = 0
    for w, o in outs:
        if o != "return":
            continue
        n += 1
        R = Resolver(p, I, w)
        got = []
        for e in w.dom or ():
            if e[0] == "call":
                got.append((last(e[1]), norm_calls(R.vals(e[2])) if e[2] is not None else None, norm_calls(R.term(e[3]))))
        if got == [want]:
            continue
        t = "; ".join("%s(%s)" % (g[0], ", ".join(show(one_or_top(x))[:60] for x in ([g[1]] if g[1] is not None else []) + list(g[2]))) for g in got)
        d = "calls %s, specified: %s(%s)" % (t or "nothing", name, ", ".join(show(one(x)) for x in ([want[1]] if want[1] is not None else []) + list(want[2])))
        if all(len(x) == 1 and definite_arg(one(x)) for g in got for x in ([g[1]] if g[1] is not None else []) + list(g[2])):
            cond = ", ".join(("" if b else "not ") + show(t)[:60] for t, b in w.facts)
            bad = d + (" when " + cond if cond else "")
        else:
            und = d
    c.ob(rule, where(f), sig(f), False if bad else None if und or not n else True, bad or und or "")


def definite_arg(t):
    return all(x.op in OPS for x in subterms(t))


SETTINGS = {"Set_Integration_Tolerance": [("Set_Tolerance", "a0")], "Set_Integration_Eval_Limit": [("Set_Integration_Eval_Limit", "a0")],
            "Set_Integration_Search_Limit": [("Set_Integration_Search_Limit", "a0")],
            "IntegrationSettings": [("Set_Tolerance", "a0"), ("Set_Integration_Eval_Limit", "a1")],
            "reset_statistics": [("reset_statistics",)]}


def free(c, m):
    p = m.p
    for f in p.funcs.values():
        if f.get("rec") or "body" not in f or BIND not in f["file"] or f.get("islambda"):
            continue
        if f["q"] in SETTINGS:
            guarded(c, G, where(f), sig(f), lambda: setting(c, p, f, SETTINGS[f["q"]]))
        if f["q"] == "Set_Integration_Method":
            guarded(c, G, where(f), sig(f), lambda: methods(c, p, f))


def setting(c, p, f, want, args=None, what=None, refuse=False):
    outs, I = binding.run(p, f, args=args)
    c.functions |= I.inlined | {f["id"]}
    want = {(w[0],) + tuple(S(mk("param", x)) if isinstance(x, str) else S(x) for x in w[1:]) for w in want}
    bad = und = None
    n = 0
    for w, o in outs:
        if o != "return":
            if not refuse and not any(t.op in ("lt", "le", "isnan", "eq") for t, b in w.facts):
                bad = "refused"
            continue
        n += 1
        R = Resolver(p, I, w)
        got = {(last(e[1]),) + tuple(norm_calls(R.term(e[3]))) for e in w.dom or () if e[0] == "call"}
        if got != want:
            d = "calls %s" % ("; ".join("%s(%s)" % (g[0], ", ".join(show(one_or_top(x)) for x in g[1:])) for g in sorted(got, key=str)) or "nothing")
            if all(len(x) == 1 and definite_arg(one(x)) for g in got for x in g[1:]):
                bad = d
            else:
                und = d
    if refuse and n and not bad:
        bad = None
    c.ob(G, where(f), what or sig(f), False if bad else None if und or not (n or refuse) else True, bad or und or "")


def methods(c, p, f):
    mine = p.enums.get("INTEGRATION_TYPE", {}).get("consts")
    lib = p.enums.get("SLAT::Integration::IntegrationSettings::METHOD_TYPE", {}).get("consts")
    if not mine or not lib:
        c.ob(G, where(f), sig(f), None, "enumerators not found")
        return
    a, b = consts(mine), consts(lib)
    for n, v in a.items():
        if n in b:
            setting(c, p, f, [("Set_Integration_Method", mk("lit", b[n]))], args=[S(mk("lit", v))], what="%s for %s" % (sig(f), n))
    # anything else is refused
    outs, I = binding.run(p, f, args=[S(mk("lit", max(a.values()) + 1))])
    c.ob(G, where(f), "%s for any other number" % sig(f), not any(o == "return" and any(e[0] == "call" for e in w.dom or ()) for w, o in outs),
         "an unknown method is accepted")


def consts(x):
    return dict(x.items()) if isinstance(x, dict) else {e["name"] if isinstance(e, dict) else e[0]: e["v"] if isinstance(e, dict) else e[1] for e in x}
