"""C17: each command of the script language does what it says."""
from ..scriptcheck import *

RULE = ("Every form of every command the grammar admits is written out with symbols for its names and numbers (repetitions with "
        "an arbitrary further element), and the listener's methods are read from the source, abstractly, in the order a walk of "
        "the tree calls them. The library objects made and the operations done are compared with what the command says: kind, "
        "values in their places, the objects the names stand for. A form the grammar admits must be accepted when the names it "
        "uses are defined.")

D = "a command defines the object it describes"
O = "a command does the operation it names"
A = "every form of a command is accepted"
S_ = "settings and variables reach what they are for"


def function(s, cls, key):
    o = s.lookup(cls, key)
    return s.method(o, "function") if o is not None else None


def ref(s, cls, key):
    """The library object of a name used in the command, None if undefined."""
    o = s.lookup(cls, key)
    return None if o is None else s.method(o, "function")


class Skip(Exception):
    pass


def used(s, cls, key):
    o = s.lookup(cls, key)
    if o is None:
        raise Skip()
    return s.method(o, "function")


def replaced(s, old, new):
    return [(Method(old, "replace", new), ())]


# Each: expected(s, n, before) -> list of (rule, what, got, want)

def detfn(s, n, b):
    got = function(s, "detfn", n.one("ID").text)
    for rule, k in (("powerlaw_args", "PLC"), ("hyperbolic_args", "NLH")):
        a = n.one(rule)
        if a is not None:
            sc = a.one("scalar2") or a.one("scalar3")
            return [(D, "detfn %s" % rule[:-5], got, Call("factory2", core(k), V(sc)))]
    for rule, k in (("loglog_args", "LOGLOG"), ("linear_args", "LIN")):
        a = n.one(rule)
        if a is not None:
            ps = a.items("scalar2")
            col = lambda i: L(*[(k_, src, V(x.all("scalar")[i])) for k_, src, x in ps])
            return [(D, "detfn %s" % rule[:-5], got, Call("factory3", core(k), col(0), col(1)))]


def probfn(s, n, b):
    mu, sd = options(n.one("lognormal_options"))
    if mu is None or sd is None:
        raise Skip()
    r = [x.one("ID").text if x.one("ID") is not None else V(x.one("var_ref")) for x in n.all("function_ref")]
    return [(D, "probfn", function(s, "probfn", n.one("ID").text),
             Call("MakeLogNormalProbabilisticFn", used(s, "detfn", r[0]), mu, used(s, "detfn", r[1]), sd))]


def im(s, n, b):
    i = n.all("ID")
    return [(D, "im", function(s, "im", i[0].text), Call("MakeIM", used(s, "detfn", i[1].text)))]


def edp(s, n, b):
    i = n.all("ID")
    return [(D, "edp", function(s, "edp", i[0].text),
             Call("MakeEDP", used(s, "im", i[1].text), used(s, "probfn", i[2].text), i[0].text))]


def collapse(name):
    def f(s, n, b):
        d = dist(n.one("lognormal_dist"))
        if d is None:
            raise Skip()
        return [(O, name, ops(s), [(Method(used(s, "im", n.one("ID").text), name, d), ())])]
    return f


def ops(s):
    return operations(s.case)


def fragfn(s, n, b):
    u = n.one("fragfn_user_defined_params")
    if u is None:
        return []
    mu, sd = options(u.one("lognormal_options"))
    if mu is None or sd is None:
        raise Skip()
    l = [(k, src, Call("MakeLogNormalDist", V(x.all("scalar")[0]), mu, V(x.all("scalar")[1]), sd))
         for k, src, x in u.one("scalar2_sequence").items("scalar2")]
    return [(D, "fragfn", function(s, "fragfn", n.one("ID").text), Call("MakeFragilityFn", L(*l)))]


def lossfn(s, n, b):
    got = function(s, "lossfn", n.one("ID").text)
    si = n.one("simple_loss_command")
    if si is not None:
        mu, sd = options(si.one("lognormal_options"))
        if mu is None or sd is None:
            raise Skip()
        facts = canon_facts(s.case)
        l = []
        for k, src, x in si.one("scalar2_sequence").items("scalar2"):
            v = [V(y) for y in x.all("scalar")]
            full = Call("MakeLogNormalDist", v[0], mu, v[1], sd)
            zero = zero_fact(facts, v[0])
            l.append((k, src, Call("MakeLogNormalDist") if zero else full))
            if zero is None and not any(any(v[0] is t for t in walk(f)) for f in facts):
                return [(D, "lossfn simple", mk("sym", "no distinction of a loss of zero"), mk("sym", "a state without loss has the default distribution"))]
        return [(D, "lossfn simple", got, Call("MakeSimpleLossFn", L(*l)))]
    bi = n.one("bilevel_loss_command")
    l = [(k, src, Call("MakeBiLevelLoss", *[V(y) for y in x.all("numerical_scalar")]))
         for k, src, x in bi.one("bilevel_spec_sequence").items("bilevel_spec")]
    return [(D, "lossfn bilevel", got, Call("MakeBiLevelLossFn", L(*l)))]


def zero_fact(facts, v):
    for f, b in facts.items():
        if f[0] == "true" and f[1] is v:
            return not b
        if f[0] == "eq" and f[1] is v and f[2] in (0, 0.0):
            return b
    return None


def compgroup(s, n, b):
    name = n.one("group_id").one("ID").text
    t = lambda r: n.one(r).one("ID").text
    e, f, c = used(s, "edp", t("edp_id")), used(s, "fragfn", t("frag_id")), used(s, "lossfn", t("cost_id"))
    if n.one("delay_id") is not None:
        d = used(s, "lossfn", t("delay_id"))
    else:
        d = Call("MakeSimpleLossFn", L(("star", mk("range", 0, Method(f, "n_states")), Call("MakeLogNormalDist"))))
    fl = n.all("FLOAT_VAL")
    ca = V(fl[0]) if fl else 1.0
    da = V(fl[1]) if len(fl) > 1 else 1.0
    return [(D, "compgroup", function(s, "compgroup", name),
             Call("MakeCompGroup", e, f, c, d, V(n.one("INTEGER")), ca, da, name))]


def structure(s, n, b):
    st = s.lookup("structure", n.one("ID").text)
    want = []
    for k, src, x in n.one("id_list").items("ID"):
        g = used(s, "compgroup", x.text)
        want.append((Method(Call("MakeStructure"), "AddCompGroup", g), () if src is None else (src,)))
    new = isinstance(st, Obj) and st.sym is None and st.cls.name == "structure"
    got = ops(s)
    return [(O, "structure", got, want), (D, "structure", new, True)]


def structcost(name):
    def f(s, n, b):
        d = dist(n.one("lognormal_dist"))
        if d is None:
            raise Skip()
        st = s.lookup("structure", n.one("ID").text)
        if st is None:
            raise Skip()
        got = ops(s)
        # the structure's library object is what its own queries ask
        s.case.effects = []
        s.method(st, "get" + name[3:])
        q = [e[1] for e in s.case.effects if e[0] == "call"]
        if not q or q[0].a[0].op != "attr":
            raise Undecided("what a structure wraps")
        return [(O, name, got, [(Method(q[0].a[0].a[0], name, d), ())])]
    return f


def print_(s, n, b):
    facts = s.case.facts
    m, f, t = n.one("print_message"), n.one("print_function"), n.one("print_title")
    want = MISSING
    if m is not None:
        kids = [c[1] for c in m.children if isinstance(c[1], Ctx)] + m.all("STRING")
        want = V(kids[0]) if kids else ""
        what = "print message"
    elif f is not None:
        cls = [k for k in ("DETFN", "PROBFN", "IM", "EDP", "FRAGFN", "LOSSFN", "COMPGROUP") if f.one(k) is not None][0].lower()
        o = s.lookup(cls, f.one("ID").text)
        if o is None:
            raise Skip()
        want = o
        what = "print of an object"
    else:
        return []
    dest = "stdout"
    if n.one("print_options") is not None:
        po = n.one("print_options")
        dest = mk("file", filename(po.one("file_spec")), "a" if po.one("APPEND_OPTION") is not None else "w")
    lines = [(canon(d), v) for d, v, l, e in s.I.out]
    got = [(d, the_value(v)) for d, v in lines]
    return [(O, what, got, [(dest, want)])]


def the_value(v):
    """What a printed text shows, if it shows one value."""
    if isinstance(v, Str) and len(v.pieces) == 1 and v.pieces[0][0] == "fmt":
        return v.pieces[0][2]
    return v


METHODS = {"BINARY": "BINARY_SUBDIVISION", "REVBIN": "REVERSE_BINARY_SUBDIVISION", "LOWREV": "LOW_FIRST_REVERSE_BINARY_SUBDIVISION",
           "SCATTERED": "SCATTERED", "DIRECTED": "DIRECTED"}


def settings(s):
    """What the library's settings are left at: name -> value."""
    out = {}
    for t, loops in ops(s):
        f = t.a[0].a[1]
        if f == "IntegrationSettings" and len(t.a[1]) == 2:
            out["Tolerance"], out["Eval_Limit"] = t.a[1]
        elif f.startswith("Set_Integration_") and len(t.a[1]) == 1:
            out[f[len("Set_Integration_"):]] = t.a[1][0]
        else:
            out[f] = t.a[1]
    return out


def integration(s, n, b):
    kids = [c[1] for c in n.children]
    vals = [k for k in kids if (k.rule if isinstance(k, Ctx) else k.name) in ("numerical_scalar", "INTEGER", "var_ref", "python_script")]
    want = {"Tolerance": V(vals[0]), "Eval_Limit": V(vals[1])}
    so = n.one("integration_search_option")
    if so is not None:
        want["Method"] = core([METHODS[k] for k in METHODS if so.one(k) is not None][0])
        want["Search_Limit"] = V([c[1] for c in so.children][-1])
    got = settings(s)
    return [(S_, "integration: %s" % k.replace("_", " ").lower(), got.get(k), want.get(k)) for k in sorted(set(got) | set(want))]


def log(s, n, b):
    want = []
    if n.one("STDERR_FLAG") is not None:
        want.append((Call("LogToStdErr", True), ()))
    if n.one("NOSTDERR_FLAG") is not None:
        want.append((Call("LogToStdErr", False), ()))
    if n.one("file_spec") is not None:
        want.append((Call("SetLogFile", filename(n.one("file_spec"))), ()))
    srt = lambda l: sorted(l, key=show)
    return [(S_, "log", srt(ops(s)), srt(want))]


def intstats(s, n, b):
    out = [(canon(d), the_value(v)) for d, v, l, e in s.I.out]
    if n.one("PRINT") is not None:
        return [(O, "intstats print", out, [("stdout", Call("format_statistics"))]), (O, "intstats print", ops(s), [])]
    return [(O, "intstats reset", ops(s), [(Call("reset_statistics"), ())])]


def title(s, n, b):
    return []


def path_of(s, text, facts, what, got):
    """Where a file of that name is, in this case; the file asked for is given
    where the case does not say enough and it is one of what is possible."""
    os_ = mk("attr", mk("sym", "os"), "path")
    call = lambda f, *a: mk("call", mk("attr", os_, f), a, ())
    d, ext = {"input": ("_DEFAULT_INPUT_DIRECTORY", "_DEFAULT_INPUT_EXTENSION"),
              "output": ("_DEFAULT_OUTPUT_DIRECTORY", "_DEFAULT_OUTPUT_EXTENSION")}[what]
    dn = facts.get(("true", canon2(call("dirname", text))))
    inside = call("join", s.dirs.get(what) or s.ps.ns.get(d, "."), text)
    out = []
    for p in ([text] if dn else [inside] if dn is False else [text, inside]):
        sx = facts.get(("true", canon2(mk("item", call("splitext", p), 1))))
        plus = mkstr([("fmt", "", p), s.ps.ns.get(ext, ".csv")])
        out += [p] if sx else [plus] if sx is False else [p, plus]
    if len(out) > 1 and any(agree(got, p)[0] is not False for p in out):
        raise Undecided("where the file is")
    return out[0]


def importfn(kind):
    def f(s, n, b):
        name = n.one("ID").text
        facts = canon_facts(s.case)
        load = [e[1] for e in s.case.effects if e[0] == "call" and show(e[1].a[0]) == "numpy.loadtxt"]
        if len(load) != 1 or not load[0].a[1]:
            raise Undecided("how the file is read")
        p = path_of(s, filename(n.one("file_spec")), facts, "input", load[0].a[1][0])
        data = load[0]
        out = [(S_, "import%sfn: the file read" % kind, data.a[1][0], p)]
        if any(e[0] == "call" and show(e[1].a[0]) in ("numpy.atleast_2d", "numpy.reshape") for e in s.case.effects):
            raise Undecided("how the rows are read")
        kw = dict(data.a[2])
        # without it, a file of one row gives numbers where rows are expected
        out.append((S_, "import%sfn: a file of one row has one row" % kind, kw.get("ndmin"), 2))
        out.append((S_, "import%sfn: the heading is left out" % kind, kw.get("skiprows"), 2))
        row = mk("elem", data)
        it = lambda i: mk("item", row, i)
        col = lambda v, *first: L(*([("v", None, x) for x in first] + [("star", data, v)]))
        if kind == "im":
            out.append((D, "importimfn", function(s, "im", name),
                        Call("MakeIM", Call("factory3", core("LOGLOG"), col(it(0)), col(it(1))))))
        else:
            ys = mk("slice", row, 1, None, None)
            y = mk("elem", ys)
            zero = facts.get(("eq", canon2(y), 0))
            if zero is None:
                raise Undecided("which values are left out")
            m = mk("sym", "math")
            ln = L() if zero else L(("star", ys, mk("call", mk("attr", m, "log"), (y,), ())))
            mean = mk("call", mk("attr", mk("sym", "numpy"), "mean"), (ln,), ())
            sd = mk("call", mk("attr", mk("sym", "numpy"), "std"), (ln,), (("ddof", 1),))
            med = mk("call", mk("attr", m, "exp"), (mean,), ())
            lin = lambda v: Call("factory3", core("LIN"), col(it(0), 0), col(v, 0))
            out.append((D, "importprobfn", function(s, "probfn", name),
                        Call("MakeLogNormalProbabilisticFn", lin(med), core("MEDIAN_X"), lin(sd), core("SD_LN_X"))))
        return out
    return f


SPEC = {
    "detfn_command": detfn, "probfn_command": probfn, "im_command": im, "edp_command": edp,
    "collapse_command": collapse("SetCollapse"), "demolition_command": collapse("SetDemolition"),
    "fragfn_command": fragfn, "lossfn_command": lossfn, "compgroup_command": compgroup, "structure_command": structure,
    "rebuildcost_command": structcost("setRebuildCost"), "demolitioncost_command": structcost("setDemolitionCost"),
    "print_command": print_, "integration_command": integration, "log_command": log, "intstats_command": intstats,
    "importprobfn_command": importfn("prob"), "importimfn_command": importfn("im"),
    "title_command": title,
}

# the name a command defines, and what of the command it may not depend on
OWN = {"detfn_command": ("detfn", "ID"), "probfn_command": ("probfn", "ID"), "im_command": ("im", "ID"), "edp_command": ("edp", "ID"),
       "fragfn_command": ("fragfn", "ID"), "lossfn_command": ("lossfn", "ID"), "compgroup_command": ("compgroup", "group_id"),
       "structure_command": ("structure", "ID"), "importprobfn_command": ("probfn", "ID"), "importimfn_command": ("im", "ID")}


def excused(case, own, e):
    """An exception is in order where a name used is not defined, or groups of
    different intensity measures are put together."""
    for f, v in case.facts.items():
        if f[0] == "defined" and not v and (own is None or (f[1], f[2]) != own):
            return True
        if f[0] == "eq" and not v and ("get_IM" in show(f[1]) or "get_IM" in show(f[2])):
            return True
        if f[0] == "none" and "get_IM" in show(f[1]) and v:
            return True
        if f[0] == "none" and v and isinstance(f[1], Term) and f[1].op in ("var", "py"):
            return True
    return False


def own_key(rule, n):
    o = OWN.get(rule)
    if o is None:
        return None
    x = n.all(o[1])[0]
    return (o[0], x.text if isinstance(x, Tok) else x.one("ID").text)


def same(got, want):
    if isinstance(want, list):
        if len(got) != len(want):
            return (False, "%d, %d are specified: %s" % (len(got), len(want), show(tuple(canon2(x) for x in got))[:300])) \
                if not any(strange(g[0]) or strange(g[1]) for g in got) else (None, "")
        r = True
        for g, w in zip(got, want):
            if g == "stdout" or w == "stdout":
                pass
            for x, y in zip(g, w):
                ok, d = agree(x, y)
                if not ok:
                    return ok, d
        return True, ""
    return agree(got, want)


def run(thorough=False):
    c = Check("C17", RULE, thorough)
    g, dv = grammar()
    t = Tally(c)
    forms = 0
    for rule in sorted(SPEC):
        if rule not in g.rules:
            continue
        try:
            ds = dv.rule(rule)
        except Undecided as e:
            c.broken("%s: %s" % (rule, e))
            continue
        for d in ds:
            forms += 1
            one_form(c, t, g, rule, d)
    sequences(c, t, g, dv)
    t.done()
    c.count("forms", forms)
    c.need(D, 10)
    c.need(O, 6)
    c.need(A, 15)
    return c.finish()


def one_form(c, t, g, rule, d):
    tree = Tree(g, d)
    n = tree.root
    form = shape(d)
    own = own_key(rule, n)
    name = rule.replace("_command", "")
    at = ["src/SlatInterpreter.py"]

    def go(case):
        try:
            s = Session(case)
            s.dirs = {}
            at[0] = listener_where(s, rule)
            try:
                s.command(n)
            except PyRaise as e:
                c.functions |= s.I.functions
                return "raise", e
            c.functions |= s.I.functions
            try:
                return "ok", SPEC[rule](s, n, None)
            except Skip:
                return "skip", None
            except PyRaise as e:
                return "und", "the specification meets %s" % e.kind
        except Undecided as e:
            return "und", str(e)
    try:
        for case, (k, r) in cases(go):
            if k == "raise":
                if not excused(case, own, r):
                    und = any(f[0] not in ("defined", "none", "true", "nonempty") for f in case.facts) or r.kind in ("NameError",) and False
                    t.add(A, at[0], name, None if und else False, "%s %s" % (r.kind, show(r.value) if r.value is not None else ""), form)
            elif k == "und":
                t.add(A, at[0], name, None, r, form)
            elif k == "ok":
                t.add(A, at[0], name, True, "", form)
                for ru, what, got, want in r:
                    ok, det = same(got, want)
                    t.add(ru, at[0], what, ok, det, form)
    except Undecided as e:
        t.add(A, at[0], name, None, str(e), form)


def sequences(c, t, g, dv):
    """Variables, titles and directories: what one command sets and another uses."""
    def tree(rule, pick=lambda v: True, prefix=""):
        v = [x for x in dv.rule(rule) if pick(shape(x))]
        return Tree(g, v[0], prefix).root if v else None

    def go(name, what, at, f):
        def run1(case):
            try:
                s = Session(case)
                s.dirs = {}
                r = f(s)
                c.functions |= s.I.functions
                return "ok", r, listener_where(s, at)
            except PyRaise as e:
                return "raise", e, ""
            except (Undecided, Skip) as e:
                return "und", str(e), ""
        for case, (k, r, w) in cases(run1):
            if k == "raise":
                t.add(S_, "src/SlatInterpreter.py", what, None if any(f[0] == "none" for f in case.facts) else False, r.kind, name)
            elif k == "und":
                t.add(S_, "src/SlatInterpreter.py", what, None, r, name)
            else:
                for got, want in r:
                    ok, d = same(got, want)
                    t.add(S_, w, what, ok, d, name)

    # set x value; print message $x
    if "set_command" in g.rules:
        for d in dv.rule("set_command"):
            def f(s, d=d):
                n = Tree(g, d, "set/").root
                p = tree("print_command", lambda x: x.startswith("PRINT MESSAGE DOLLARS ID"), "use/")
                p.one("print_message").one("var_ref").one("ID").text = n.one("ID").text
                s.command(n)
                s.I.out = []
                s.command(p)
                v = [k for k in (c_[1] for c_ in n.children) if isinstance(k, Ctx)][0]
                return [(L(*[("v", None, the_value(b)) for a, b, l, e in s.I.out]), L(("v", None, V(v))))]
            go(shape(d), "set: a variable stands for its value", "set_command", f)
    # titles
    if "title_command" in g.rules and "print_command" in g.rules:
        def f(s):
            a, b = tree("title_command", prefix="a/"), tree("title_command", prefix="b/")
            p = tree("print_command", lambda x: x == "PRINT TITLE", "use/")
            s.command(a)
            s.command(b)
            s.I.out = []
            s.command(p)
            vs = [x for o in s.I.out for x in shown(o[1])]
            return [(L(*[("v", None, x) for x in vs]), L(("v", None, V(a.one("STRING"))), ("v", None, V(b.one("STRING")))))]
        go("title, title, print title", "title: printed in the order given", "title_command", f)
    # directories
    for cmd, imp in (("inputdir_command", "importimfn_command"), ("inputdir_command", "importprobfn_command")):
        if cmd not in g.rules or imp not in g.rules:
            continue

        def f(s, cmd=cmd, imp=imp):
            a, b = tree(cmd, prefix="dir/"), tree(imp, prefix="use/")
            s.command(a)
            s.dirs["input"] = filename(a.one("file_spec"))
            s.case.effects = []
            s.command(b)
            facts = canon_facts(s.case)
            load = [e[1] for e in s.case.effects if e[0] == "call" and show(e[1].a[0]) == "numpy.loadtxt"]
            if len(load) != 1 or not load[0].a[1]:
                raise Undecided("how the file is read")
            p = path_of(s, filename(b.one("file_spec")), facts, "input", load[0].a[1][0])
            return [(load[0].a[1][0], p)]
        go("inputdir, " + imp.replace("_command", ""), "inputdir: where files are read", cmd, f)


def shown(v):
    """The values a printed text shows, blank literals left out."""
    if isinstance(v, str):
        return v.split()
    if isinstance(v, Str):
        out = []
        for p in v.pieces:
            if isinstance(p, str):
                out += p.split()
            elif p[0] == "fmt":
                out.append(canon(p[2]))
            else:
                raise Undecided("text of unknown length")
        return out
    return [canon(v)]
