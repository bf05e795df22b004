"""C19: names stand for the latest definition."""
from ..scriptcheck import *
from .c17 import Skip

RULE = ("Every class of pyslat whose objects are found by name is constructed, read abstractly from its source, in every state its "
        "registry can be in (the name in use or not), and once more for every call of the library on the way failing there: what "
        "lookup answers afterwards for this name and for others, what is replaced in the library's objects, and what a failed "
        "definition leaves behind.")

L = "a name stands for its latest definition"
O = "a definition leaves other names as they are"
R = "a new definition takes the place of the old one wherever that is used"
N = "an object without a name is not registered"
F = "a definition which fails leaves the names as they were"
I_ = "an object knows its name"
B = "an object is found by what it wraps"
C = "nothing is defined after the names are cleared"

REPLACED = ("im", "edp", "fragfn", "lossfn", "compgroup")


def word(n):
    """A name as the script interpreter has it."""
    return mk("text", "ID", n)


def sym(n):
    return mk("sym", "arg." + n)


def constructors(s):
    """(registry, what, callable, arguments after the name)"""
    ns = s.ps.ns
    e = lambda cls, key="X": s.entry(s.cls[cls], sym(key))
    core_ = lambda n: core(n)
    lst = lambda *a: LList([("v", x) for x in a])
    opts = LDict()
    opts.entries += [["mu", core("MEAN_LN_X"), None], ["sd", core("SD_LN_X"), None]]
    out = []

    def add(reg, what, name, *args):
        if isinstance(ns.get(name), (Cls, Fn)):
            out.append((reg, what, ns[name], list(args)))
    for t in ("power law", "hyperbolic", "loglog", "linear", "nonsense"):
        add("detfn", "detfn " + t, "detfn", t, lst(sym("a"), sym("b")))
    for t in ("lognormal", "nonsense"):
        add("probfn", "probfn " + t, "probfn", t, lst(core_("MEAN_LN_X"), e("detfn")), lst(core_("SD_LN_X"), e("detfn", "Y")))
    add("im", "im", "im", e("detfn"))
    add("edp", "edp", "edp", e("im"), e("probfn"))
    add("edp", "compound edp", "edp", e("im"), e("probfn"), e("probfn", "Y"))
    add("fragfn", "fragfn_user", "fragfn_user", opts, lst(lst(sym("a"), sym("b")), lst(sym("c"), sym("d"))))
    add("lossfn", "simplelossfn", "simplelossfn", opts, lst(lst(sym("a"), sym("b"))))
    add("lossfn", "bilevellossfn", "bilevellossfn", lst(lst(*[sym(x) for x in "abcde"])))
    for w, cost, delay in (("with cost and delay", "C", "D"), ("with cost", "C", None), ("with delay", None, "D")):
        add("compgroup", "compgroup " + w, "compgroup", e("edp"), e("fragfn"), cost and e("lossfn", cost), delay and e("lossfn", delay),
            sym("count"), 1.0, 1.0)
    add("structure", "structure", "structure")
    ropt = lambda **k: LDict_of(k)
    for t, reg, o in (("detfn", "detfn", {}), ("imrate", "im", {}), ("dsrate", "compgroup", {}), ("collrate", "im", {}), ("pdf", "structure", {}),
                      ("structcost", "structure", {"structcost-type": "annual"}), ("structcost", "structure", {"structcost-type": "by-fate"}),
                      ("detfn", "detfn", None)):
        at = None if o is None or t in ("dsrate", "collrate") or o.get("structcost-type") == "annual" else lst(sym("a"), sym("b"))
        add("recorder", "recorder %s%s" % (t, " without points" if o is None else " " + "".join((o or {}).values())), "MakeRecorder",
            t, e(reg), ropt(**(o or {})), None, at)
    return out


def LDict_of(k):
    d = LDict()
    for x, v in k.items():
        d.entries.append([x, v, None])
    return d


def where(s, reg):
    f = s.ps.ns.get(reg)
    return "src/pyslat.py:%d" % f.node.lineno if isinstance(f, Cls) and hasattr(f, "node") and f.node is not None else "src/pyslat.py"


class Counted(Exception):
    pass


def scene(case, i, named, fail=None):
    """One definition. Returns a dict of what is seen."""
    s = Session(case, interpreter=False, recorders=True)
    s.dirs = {}
    reg, what, f, args = constructors(s)[i]
    name = word("name") if named else None
    other = word("other")
    key = name if named else word("unused")
    r = {"s": s, "reg": reg, "what": what, "where": where(s, reg)}
    r["before"] = (s.lookup(reg, key), s.lookup(reg, other))
    calls = [0]

    def hook(fn, a, kw):
        root = fn
        while isinstance(root, Term) and root.op in ("attr", "call"):
            root = root.a[0]
        if isinstance(root, Term) and (root is CORE or root.op == "entry" or root.op == "attr"):
            calls[0] += 1
            if fail is not None and calls[0] == fail:
                raise PyRaise("RuntimeError", "injected")
        return MISSING
    s.I.extern_call = hook
    case.effects = []
    r["raised"] = None
    r["value"] = None
    try:
        r["value"] = s.I.call(f, [name] + args, {})
    except PyRaise as e:
        r["raised"] = e
    r["calls"] = calls[0]
    del s.I.extern_call
    r["replaced"] = [x for x in operations(case) if x[0].a[0].a[1] == "replace"]
    r["lookup"] = s.lookup(reg, key)
    r["other"] = s.lookup(reg, other)
    r["none"] = s.lookup(reg, None)
    return r


def run(thorough=False):
    c = Check("C19", RULE, thorough)
    t = Tally(c)
    n = None
    for case, k in cases(lambda case: len(constructors(Session(case, interpreter=False, recorders=True)))):
        n = k
    for i in range(n):
        for named in (True, False):
            definition(c, t, i, named)
    for reg in REPLACED:
        bynative(c, t, reg)
    cleared(c, t)
    t.done()
    c.count("constructors", n)
    c.need(L, 8)
    c.need(R, 5)
    c.need(N, 8)
    c.need(F, 8)
    return c.finish()


def definition(c, t, i, named):
    most = [0]

    def go(fail):
        def f(case):
            try:
                r = scene(case, i, named, fail)
            except Undecided as e:
                return "und", str(e)
            except PyRaise as e:
                return "raise", e
            c.functions |= r["s"].I.functions
            most[0] = max(most[0], r["calls"])
            return "ok", r
        return cases(f)

    def judge(case, k, r):
        if k != "ok":
            t.add(L, "src/pyslat.py", "constructor %d" % i, None, r if k == "und" else "%s %s" % (r.kind, show(r.value)), "")
            return
        w, what, reg = r["where"], r["what"], r["reg"]
        old, oother = r["before"]
        state = "named" if named else "anonymous"
        if oother is not None or True:
            t.add(O, w, what, r["other"] is oother, "another name stands for %s" % show(freezable(r["other"])), state)
        if not named:
            t.add(N, w, what, r["none"] is None or isinstance(r["none"], Obj) and r["none"].sym is not None and r["value"] is not r["none"],
                  "it is registered under None", state)
        if r["raised"] is not None:
            t.add(F, w, what, r["lookup"] is old, "the name stands for %s after %s" % (show(freezable(r["lookup"])), r["raised"].kind), state)
            done = [x for x in r["replaced"]]
            # a replacement which itself fails leaves no trace
            t.add(F, w, what, not done, "%s although the definition fails" % (show(done[0][0]) if done else ""), state)
            return
        v = r["value"]
        if not isinstance(v, Obj):
            t.add(L, w, what, None, "constructs %s" % show(freezable(v)), state)
            return
        if named:
            t.add(L, w, what, r["lookup"] is v, "lookup answers %s" % show(freezable(r["lookup"])), state)
        else:
            t.add(N, w, what, r["lookup"] is old, "lookup of a name answers the object", state)
        got = r["replaced"]
        if reg in REPLACED:
            s = r["s"]
            new = canon(s.method(v, "function"))
            if named and old is not None:
                want = Method(s.method(old, "function"), "replace", new)
                ok = len(got) == 1 and not got[0][1] and got[0][0] is canon(want)
                if not ok and any(strange(x[0]) for x in got):
                    ok = None
                t.add(R, w, what, ok, "%s, where %s is specified" % (", ".join(show(x[0]) for x in got) or "nothing", show(canon(want))), state)
            else:
                t.add(R if named else N, w, what, not got, "%s although nothing was defined" % ", ".join(show(x[0]) for x in got), state)
        f, _ = v.cls.find("id")
        if f is not None:
            try:
                d = r["s"].method(v, "id")
                ok = d is (word("name") if named else None)
                t.add(I_, w, what, ok if ok or concrete(d) or isinstance(d, Term) and not strange(d) else None, "id answers %s" % show(freezable(d)), state)
            except (PyRaise, Undecided) as e:
                t.add(I_, w, what, None, str(e), state)
    for case, (k, r) in go(None):
        judge(case, k, r)
    for x in range(1, min(most[0], 12) + 1):
        for case, (k, r) in go(x):
            if k == "ok" and r["raised"] is None:
                continue
            judge(case, k, r)


def bynative(c, t, reg):
    """lookup with an object of the library."""
    def f(case):
        try:
            s = Session(case, interpreter=False)
            cl = s.cls.get(reg)
            if cl is None:
                return "und", "no class %s" % reg
            native = sym("native")
            r = s.lookup(reg, native)
            c.functions |= s.I.functions
            return "ok", s, r, native
        except PyRaise as e:
            return "raise", e
        except Undecided as e:
            return "und", str(e)
    for case, r in cases(f):
        what = "%s by library object" % reg
        if r[0] == "und":
            t.add(B, "src/pyslat.py", what, None, r[1], "")
            continue
        if r[0] == "raise":
            t.add(B, "src/pyslat.py", what, None, r[1].kind, "")
            continue
        _, s, v, native = r
        isn = [k for k, b in case.facts.items() if k[0] == "isinstance" and k[1] is native and b]
        if not isn:
            continue
        if v is None:
            same = [k for k, b in case.facts.items() if "AreSame" in show(k[1] if len(k) > 1 else k[0]) and b]
            t.add(B, where(s, reg), what, not same, "nothing is found although one is the same", "")
            continue
        if not isinstance(v, Obj) or v.sym is None:
            t.add(B, where(s, reg), what, None, "answers %s" % show(freezable(v)), "")
            continue
        f_ = freezable(s.method(v, "function"))
        same = [k for k, b in case.facts.items() if b and any(isinstance(x, Term) and x.op == "call" and x.a[0].op == "attr" and x.a[0].a[1] == "AreSame"
                                                            and {x.a[0].a[0], x.a[1][0]} == {f_, native} for k0 in k for x in walk(k0))]
        t.add(B, where(s, reg), what, bool(same), "answers %s, which was not found to be the same" % show(freezable(v)), "")


def cleared(c, t):
    """After ClearCaches nothing is defined."""
    def f(case):
        try:
            s = Session(case, interpreter=False, recorders=True)
            fn = s.ps.ns.get("ClearCaches")
            if not isinstance(fn, Fn):
                return "und", "no ClearCaches"
            s.I.call(fn, [], {})
            c.functions |= s.I.functions
            return "ok", s, [(r, s.lookup(r, word("name"))) for r in REGISTRIES if r in s.cls], "src/pyslat.py:%d" % fn.node.lineno
        except PyRaise as e:
            return "und", e.kind
        except Undecided as e:
            return "und", str(e)
    for case, r in cases(f):
        if r[0] == "und":
            t.add(C, "src/pyslat.py", "ClearCaches", None, r[1], "")
            continue
        for reg, v in r[2]:
            t.add(C, r[3], reg, v is None, "%s is still found" % show(freezable(v)), "")
