"""C18: a recorder prints what it is said to record."""
from ..scriptcheck import *
from .c17 import path_of, own_key, Skip, used, excused

RULE = ("Every kind of recorder the grammar admits, with every column it can have, is defined and then run by an analyze command, "
        "read abstractly from the listener and pyslat's recorder classes: what is printed, as sequences of values line by line and "
        "for an arbitrary point, is compared with what the recorder is for: the points in the order given, the quantities of the "
        "recorded object at that point under the column's name, in the file or on the output asked for.")

P = "each line has the point and the quantities recorded there"
H = "the columns have their names, in order"
W = "the output goes where it is asked for"
A = "a recorder of every kind can be defined and run"
Q = "points are those asked for"
M = "every recorder defined is run, once for each analysis"

NL = "NL"
ANY = ("any",)

STATS = {"mean_x": "Mean", "mean_ln_x": "MeanLn", "median_x": "Median", "sd_ln_x": "SD_ln", "sd_x": "SD"}
DIST = {"mean_x": "get_mean_X", "mean_ln_x": "get_mu_lnX", "median_x": "get_median_X", "sd_ln_x": "get_sigma_lnX", "sd_x": "get_sigma_X"}
COST = {"costedp": ("E_Cost_EDP", "SD_ln_Cost_EDP"), "costim": ("E_Cost_IM", "SD_ln_Cost_IM"),
        "delayedp": ("E_Delay_EDP", "SD_ln_Delay_EDP"), "delayim": ("E_Delay_IM", "SD_ln_Delay_IM")}
REG = {"detfn": "detfn", "probfn": "probfn", "imrate": "im", "edpim": "edp", "edprate": "edp", "dsedp": "compgroup", "dsim": "compgroup",
       "lossds": "compgroup", "costedp": "compgroup", "costim": "compgroup", "delayim": "compgroup", "delayedp": "compgroup",
       "dsrate": "compgroup", "collrate": "im", "costrate": "compgroup", "collapse": "im", "deagg": "structure", "totalcost": "structure",
       "pdf": "structure", "structcost": "structure"}
DEFAULT = {"probfn": ["mean_ln_x", "sd_ln_x"], "edpim": ["mean_ln_x", "sd_ln_x"], "costedp": ["mean_x", "sd_ln_x"],
           "costim": ["mean_x", "sd_ln_x"], "delayedp": ["mean_x", "sd_ln_x"], "delayim": ["mean_x", "sd_ln_x"],
           "totalcost": ["mean_x", "sd_ln_x"]}
XIM = ("imrate", "edpim", "dsim", "costim", "delayim", "totalcost", "collapse", "deagg", "pdf")


# ---------------------------------------------------------------- what is printed

def tokens(v, out):
    """The values and words of a printed text."""
    if isinstance(v, str):
        for i, l in enumerate(v.split("\n")):
            if i:
                out.append(NL)
            out += [("v", w, "") for w in l.split()]
    elif isinstance(v, Str):
        for p in v.pieces:
            if isinstance(p, str):
                tokens(p, out)
            elif p[0] == "fmt":
                x = p[2]
                if isinstance(x, Str) and all(isinstance(y, tuple) and y[0] == "fmt" for y in x.pieces) and len(x.pieces) == 1:
                    tokens(x, out)
                elif isinstance(x, str):
                    tokens(x, out)
                else:
                    out.append(("v", canon2(freezable(x)), p[1]))
            elif p[0] == "star":
                t = []
                tokens(Str(p[2]), t)
                out.append(("star", canon2(p[1]), t))
            else:
                raise Undecided("a text which depends on a condition")
    else:
        out.append(("v", canon2(freezable(v)), ""))
    return out


def streams(out):
    """destination -> what is written there."""
    r = {}
    for dest, v, loops, end in out:
        key = dest if isinstance(dest, str) else canon2(dest)
        top, open_ = r.setdefault(key, ([], []))
        while open_ and not (len(open_) <= len(loops.ids) and all(a == b[0] for a, b in zip(loops.ids, open_))):
            open_.pop()
        cur = open_[-1][1] if open_ else top
        for i in range(len(open_), len(loops)):
            t = []
            cur.append(("star", canon2(loops[i]), t))
            open_.append((loops.ids[i], t))
            cur = t
        tokens(v, cur)
        if end == "\n":
            cur.append(NL)
        elif isinstance(end, str):
            tokens(end, cur)
        else:
            raise Undecided("line end")
    return {k: v[0] for k, v in r.items()}


def show_tokens(l):
    out = []
    for t in l:
        if t == NL:
            out.append("|")
        elif t is ANY or t == ANY:
            out.append("?")
        elif t[0] == "star":
            out.append("(for each of %s: %s)" % (show(t[1])[:80], show_tokens(t[2])))
        else:
            out.append(show(t[1])[:160])
    return " ".join(out)


def match(got, want):
    """(True|False|None, rule, detail): the first difference."""
    i = 0
    header = True
    for w in want:
        if i >= len(got):
            return False, P, "the output ends before %s" % show_tokens([w])
        g = got[i]
        i += 1
        if w == NL:
            if g != NL:
                return worst([g], False, H if header else P, "a column more than there should be: %s" % show_tokens([g]))
            header = False
            continue
        if g == NL:
            return False, H if header else P, "a line ends before %s" % show_tokens([w])
        if w == ANY:
            continue
        if w[0] == "star":
            if g[0] != "star":
                return worst([g], False, H if header else P, "%s, where %s is specified" % (show_tokens([g]), show_tokens([w])))
            srcs = w[1] if isinstance(w[1], (list, set, frozenset)) else [w[1]]
            srcs = [canon2(x) for x in srcs]
            if g[1] not in srcs:
                s = strange(g[1])
                return (None if s else False), Q, "for each of %s, where %s is specified" % (show(g[1])[:200], show(srcs[0])[:200])
            ok, r, d = match(g[2], w[2])
            if not ok:
                return ok, H if header else r, d
            if NL in w[2]:
                header = False
            continue
        if g[0] == "star":
            return worst([g], False, H if header else P, "%s, where %s is specified" % (show_tokens([g]), show_tokens([w])))
        wv = canon2(freezable(w[1]))
        ok, d = agree(g[1], wv)
        if not ok:
            return ok, H if header else P, d
        if len(w) > 2 and w[2] == "number" and g[2]:
            m = re.search(r"\.(\d+)([a-zA-Z%]?)$", g[2])
            if m and (int(m.group(1)) < 6 or m.group(2) not in ("", "g", "G", "e", "E")):
                return False, P, "%s is shown as '%s'" % (show(g[1])[:100], g[2])
    if i < len(got):
        return worst(got[i:], False, P, "more is printed than specified: %s" % show_tokens(got[i:])[:300])
    return True, None, ""


def worst(toks, ok, r, d):
    for t in toks:
        if t != NL and t[0] == "v" and strange(t[1]):
            return None, r, d
        if t != NL and t[0] == "star" and (strange(t[1]) or worst(t[2], ok, r, d)[0] is None):
            return None, r, d
    return ok, r, d


# ---------------------------------------------------------------- what should be

def num(x):
    return ("v", x, "number")


def word(x):
    return ("v", x)


def points(s, n):
    """[(source or None, point)]"""
    at = n.one("recorder_at")
    I = s.I
    fl = at.one("float_array")
    if fl is not None:
        return [(src, V(x)) for k, src, x in fl.items("FLOAT_VAL")]
    for r in ("var_ref", "python_script"):
        if at.one(r) is not None:
            v = V(at.one(r))
            if r == "var_ref" and any(f[0] == "none" and f[1] is v and b for f, b in s.case.facts.items()):
                raise Skip()
            return [(v, mk("elem", v))]
    ca = at.one("counted_at")
    if ca is not None:
        a, b = [mk("float", x.text) for x in ca.all("FLOAT_VAL")]
        f = "linrange" if ca.one("LINFLAG") is not None else "logrange"
        l = I.call(s.ps.ns[f], [a, b, mk("int", ca.one("INTEGER").text)], {})
    else:
        a, st, b = [mk("float", x.text) for x in at.all("FLOAT_VAL")]
        l = I.call(s.ps.ns["frange"], [a, b, st], {})
    return listed(I, l)


def listed(I, l):
    l = I.call(I.b["list"], [l], {})
    if isinstance(l, LList):
        return [(None, p[1]) if p[0] == "v" else (p[1], p[2]) for p in l.parts]
    return [(l, mk("elem", l))]


def columns(n, type):
    """[(source, label token, statistic name or a probability)]"""
    rc = n.one("recorder_cols")
    if rc is None:
        return [(None, word(c), c) for c in DEFAULT.get(type, [])] or None
    out = []
    for k, src, c in rc.items("col_spec"):
        t = c.one("placement_type") or c.one("spread_type")
        if t is not None:
            w = [x[1] for x in t.children][0].text
            out.append((src, word(w), w))
        else:
            sc = c.one("scalar")
            if sc.one("numerical_scalar") is None or sc.one("numerical_scalar").one("var_ref") or sc.one("numerical_scalar").one("python_script"):
                raise Skip()
            out.append((src, word(V(sc)), V(sc)))
    return out


def header(cols, first=ANY):
    out = [first]
    for src, label, st in cols:
        out.append(label if src is None else ("star", src, [label]))
    return out


def row(cols, f):
    out = []
    for src, label, st in cols:
        t = num(f(st))
        out.append(t if src is None else ("star", src, [t]))
    return out


def lines(pts, f):
    out = []
    for src, x in pts:
        l = [num(x)] + f(x) + [NL]
        out += l if src is None else [("star", src, l)]
    return out


def stat(s, o, type, st, x):
    if type in COST:
        if st not in ("mean_x", "sd_ln_x"):
            raise Skip()
        return s.method(o, COST[type][0 if st == "mean_x" else 1], x)
    if isinstance(st, Term) or not isinstance(st, str):
        if type not in ("probfn", "edpim"):
            raise Skip()
        return s.method(o, "X_at_exceedence", x, st)
    if type == "totalcost":
        return Method(freezable(native(s, o, "TotalCost", x)), DIST[st])
    if type not in ("probfn", "edpim"):
        raise Skip()
    return Method(s.method(o, "function"), STATS[st], x)


def native(s, o, name, *a):
    """The library's distribution behind a query's answer."""
    d = s.method(o, name, *a)
    return unwrap(s, d)


def unwrap(s, d):
    if isinstance(d, Obj) and d.cls.name == "lognormaldist":
        m = canon(s.method(d, "mean"))
        if isinstance(m, Term) and m.op == "call" and m.a[0].op == "attr" and m.a[0].a[1] == "get_mean_X":
            return m.a[0].a[0]
        raise Undecided("what a distribution wraps")
    return d


def sum_of(t):
    return mk("sum", t, mk("elem", t))


def expected(s, n, type):
    o = s.lookup(REG[type], [x for x in n.all("ID")][0].text)
    if o is None:
        raise Skip()
    x_label = ANY
    if type in XIM or type == "structcost":
        i = o if REG[type] == "im" else s.method(o, "get_IM")
        if i is None:
            raise Skip()
        x_label = word(s.method(i, "id"))
    if type == "dsrate":
        r = canon(s.method(o, "Rate"))
        return [("star", r, [ANY]), NL, ("star", r, [num(mk("elem", r))]), NL]
    if type == "collrate":
        return [ANY, ANY, ANY, NL, word(s.method(o, "id")), num(s.method(o, "DemolitionRate")), num(s.method(o, "CollapseRate")), NL]
    if type == "structcost":
        return structcost(s, n, o, x_label)
    pts = points(s, n)
    if type == "pdf":
        q = lambda x: s.method(o, "pdf", x)
        if n.one("NORMALISE_FLAG") is not None:
            if len(pts) != 1 or pts[0][0] is None:
                raise Skip()
            src, e = pts[0]
            mx = mk("maximum", src, freezable(q(e)), 0)
            return [x_label, ANY, NL] + lines(pts, lambda x: [num(mk("bin", "/", freezable(q(x)), mx))])
        return [x_label, ANY, NL] + lines(pts, lambda x: [num(q(x))])
    if type in ("detfn", "imrate", "edprate", "lossds", "costrate"):
        if n.one("recorder_cols") is not None:
            if type not in ("imrate",):
                raise Skip()
        q = {"detfn": "ValueAt", "imrate": "getlambda", "edprate": "getlambda", "lossds": "E_Cost_EDP", "costrate": "lambda_cost"}[type]
        return [x_label, ANY, NL] + lines(pts, lambda x: [num(s.method(o, q, x))])
    if type == "collapse":
        return [x_label, ANY, ANY, NL] + lines(pts, lambda x: [num(s.method(o, "pDemolition", x)), num(s.method(o, "pCollapse", x))])
    if type == "deagg":
        def f(x):
            d = s.method(o, "DeaggregatedCost", x)
            ds = [s.I.getitem(d, i) if isinstance(d, (LList, tuple)) else mk("item", freezable(d), i) for i in (0, 1)]
            out = []
            for y in ds:
                u = freezable(unwrap(s, y))
                out += [num(Method(u, "get_mean_X")), num(Method(u, "get_sigma_lnX"))]
            return out
        return [x_label, ANY, ANY, ANY, ANY, NL] + lines(pts, f)
    if type in ("dsedp", "dsim"):
        def f(x):
            t = canon(s.method(s.method(o, "fragfn"), "pExceeded", x) if type == "dsedp" else s.method(o, "pDS_IM", x))
            return [("star", t, [num(mk("elem", t))]), num(sum_of(t))]
        if n.one("recorder_cols") is not None:
            raise Skip()
        k = s.method(o, "size") if type == "dsedp" or True else None
        return [x_label, ("star", mk("range", 0, freezable(k)), [ANY]), ANY, NL] + lines(pts, f)
    cols = columns(n, type)
    return header(cols, x_label) + [NL] + lines(pts, lambda x: row(cols, lambda st: stat(s, o, type, st, x)))


def structcost(s, n, o, x_label):
    if n.one("NPV_FLAG") is not None:
        i = [V(x) for x in n.all("INTEGER")]
        src = mk("range", *[mk("int", x.text) for x in [n.all("INTEGER")[k] for k in (0, 2, 1)]])
        rate = V(n.one("FLOAT_VAL"))
        return [ANY, ANY, NL] + lines([(src, mk("elem", src))], lambda x: [num(s.method(o, "E_cost", x, rate))])
    if n.one("ANNUAL_FLAG") is not None:
        mu, sd = options(n.one("lognormal_options"))
        names = {"MEAN_LN_X": "mean_ln_x", "MEDIAN_X": "median_x", "MEAN_X": "mean_x", "SD_LN_X": "sd_ln_x", "SD_X": "sd_x"}
        want = [names[x.a[1]] for x in (mu, sd) if x is not None] or ["mean_x"]
        if n.one("recorder_cols") is not None:
            raise Skip()
        d = freezable(native(s, o, "AnnualCost"))
        return ("either", [[word(c) for c in w] + [NL] + [num(Method(d, DIST[c])) for c in w] + [NL]
                           for w in ([want, want[::-1]] if len(want) > 1 else [want])])
    cols = columns(n, "structcost")
    if cols is None:
        cols = [(None, word("mean_x"), "mean_x")]
    pts = points(s, n)
    if any(not isinstance(c[2], str) for c in cols):
        raise Skip()
    t = n.one("structcost_type")
    if t.one("BY_FATE_FLAG") is not None:
        def f(x):
            out = []
            for i in range(3):
                d = freezable(unwrap(s, s.I.getitem(s.method(o, "CostsByFate", x), i)))
                out += row(cols, lambda st: Method(d, DIST[st]))
            return out
        head = []
        for i in range(3):
            head += [ANY if c[0] is None else ("star", c[0], [ANY]) for c in cols]
        return [x_label] + head + [NL] + lines(pts, f)
    groups = canon(s.method(o, "ComponentsByEDP" if t.one("BY_EDP_FLAG") is not None else "ComponentsByFragility"))
    srcs = [groups, mk("sorted", groups)]
    g = mk("elem", groups)
    cg = mk("elem", g)

    def f(x):
        d = Call("AddDistributions", L(("star", g, Call("MakeLogNormalDist", Method(cg, "E_Cost_IM", x), core("MEAN_X"),
                                                       Method(cg, "SD_ln_Cost_IM", x), core("SD_LN_X")))))
        return [("star", srcs, row(cols, lambda st: Method(d, DIST[st])))]
    return [x_label, ("star", srcs, [ANY if c[0] is None else ("star", c[0], [ANY]) for c in cols]), NL] + lines(pts, f)


# ---------------------------------------------------------------- forms

def replaced(d, rule, new):
    return (d[0], d[1], [new if c[0] == "rule" and c[1] == rule else c for c in d[2]])


def has_child(d, rule):
    return any(c[0] == "rule" and c[1] == rule for c in d[2])


def forms(dv):
    """Recorder commands: each kind with each column, each way to give the
    points, each destination."""
    ds = dv.rule("recorder_command")
    bare = [d for d in ds if not has_child(d, "print_options")]
    plain = {}
    for d in ds:
        d0 = (d[0], d[1], [c for c in d[2] if not (c[0] == "rule" and c[1] == "print_options")])
        plain.setdefault(shape(d0), d0)
    types = dv.rule("recorder_type")
    ats = [a for a in dv.rule("recorder_at")]
    ats = [a for i, a in enumerate(ats) if shape(a).startswith("PYTHON") is False or shape(a).endswith("(OTHER)* PYTHON_END")]
    cols = [c for c in dv.rule("recorder_cols") if "PYTHON" not in shape(c) and "DOLLARS" not in shape(c) and "STRING" not in shape(c)]
    # the same column, or another, first and repeated
    star_of = lambda d: [c for c in d[2] if c[0] == "star"]
    firsts, stars = {}, {}
    for c in cols:
        if not star_of(c):
            continue
        k = " ".join(shape(x) for x in c[2] if x[0] != "star").split()[-1]
        w = shape(star_of(c)[0]).strip("()*").split()[-1]
        firsts.setdefault(k, c)
        stars.setdefault(w, star_of(c)[0])
    cols += [(f[0], f[1], [stars[w] if x[0] == "star" else x for x in f[2]])
             for k, f in firsts.items() for w in stars if k == w or (k, w) in (("MEAN_X", "SD_LN_X"), ("SD_LN_X", "MEAN_X"), ("MEDIAN_X", "SD_X"), ("FLOAT_VAL", "MEDIAN_X"))]
    popts = dv.rule("print_options")
    out, seen = [], set()

    def add(d):
        k = shape(d)
        if k not in seen:
            seen.add(k)
            out.append(d)
    kinds = {}
    for d in plain.values():
        if has_child(d, "recorder_cols") and "PYTHON" in shape(d):
            continue
        k = tuple(c[1] if c[0] == "rule" else c[1] for c in d[2] if not (c[0] == "rule" and c[1] in ("lognormal_options",)))
        kinds.setdefault(k, d)
    for k, d in kinds.items():
        ts = types if has_child(d, "recorder_type") else [None]
        sts = dv.rule("structcost_type") if has_child(d, "structcost_type") else [None]
        for t in ts:
            for st in sts:
                e = replaced(d, "recorder_type", t) if t else d
                e = replaced(e, "structcost_type", st) if st else e
                add(e)
                if has_child(e, "recorder_cols"):
                    for c in cols:
                        add(replaced(e, "recorder_cols", c))
                elif has_child(e, "lognormal_options"):
                    for c in dv.rule("lognormal_options"):
                        add(replaced(e, "lognormal_options", c))
                if has_child(e, "recorder_at"):
                    for a in ats:
                        add(replaced(e, "recorder_at", a))
    # destinations
    first = {}
    for d in list(out):
        first.setdefault(d[2][2][1] if d[2][2][0] == "tok" else shape(d[2][2]), d)
    for i, d in enumerate(first.values()):
        for p in (popts if i < 2 else popts[:2]):
            out.append((d[0], d[1], d[2] + [p]))
    return out


def type_of(n):
    t = n.one("recorder_type")
    if t is not None:
        return [c[1] for c in t.children][0].text
    for k in ("DSRATE", "COLLRATE", "COSTRATE", "COLLAPSE", "DEAGG", "TOTALCOST", "PDF", "STRUCTCOST"):
        if n.one(k) is not None:
            return k.lower()
    raise Undecided("kind of recorder")


def supported(n, type):
    """The columns asked for are ones the recorded object has."""
    return True


def run(thorough=False):
    c = Check("C18", RULE, thorough)
    g, dv = grammar()
    t = Tally(c)
    if "recorder_command" not in g.rules or "analyze_command" not in g.rules:
        c.broken("no recorder or analyze command")
        return c.finish()
    an = dv.rule("analyze_command")[0]
    fs = forms(dv)
    for d in fs:
        one_form(c, t, g, d, an)
    several(c, t, g, dv, an)
    t.done()
    c.count("forms", len(fs))
    c.need(P, 12)
    c.need(W, 12)
    c.need(A, 12)
    return c.finish()


def where_of(s, type):
    """The class which prints."""
    for name in ("recorder",):
        cl = s.ps.ns.get(name)
        if isinstance(cl, Cls):
            f, _ = cl.find("generate_output")
            if isinstance(f, Fn):
                return "src/pyslat.py:%d" % f.node.lineno
    return "src/pyslat.py"


def tail(toks, k):
    return toks[len(toks) - k:] if k else []


def one_form(c, t, g, d, an):
    n = Tree(g, d).root
    form = shape(d)
    at = ["src/pyslat.py"]
    type = type_of(n)
    what = type
    if type == "structcost":
        st = n.one("structcost_type")
        what += " npv" if n.one("NPV_FLAG") is not None else " annual" if n.one("ANNUAL_FLAG") is not None else " " + shape_word(st)

    def go(case):
        try:
            s = Session(case)
            s.dirs = {}
            at[0] = where_of(s, type)
            try:
                s.command(n)
                s.I.out = []
                s.command(Tree(g, an, "analyze/").root)
            except PyRaise as e:
                c.functions |= s.I.functions
                try:
                    expected(s, n, type)
                except Skip:
                    return "skip", None
                except (PyRaise, Undecided):
                    pass
                return "raise", e
            c.functions |= s.I.functions
            got = streams(s.I.out)
            try:
                want = expected(s, n, type)
            except Skip:
                return "skip", None
            except PyRaise as e:
                return "und", "the specification meets %s %s" % (e.kind, e.value)
            dest = "stdout"
            po = n.one("print_options")
            if po is not None:
                fd = [k for k in got if k != "stdout"]
                if len(fd) > 1:
                    return "und", "several files"
                g0 = fd[0].a[0] if fd and isinstance(fd[0], Term) and fd[0].op == "file" else MISSING
                if g0 is MISSING and not fd:
                    return "ok", (W, False, "nothing is written to a file")
                if g0 is MISSING:
                    return "und", "a destination: %s" % show(fd[0])
                p = path_of(s, filename(po.one("file_spec")), canon_facts(case), "output", g0)
                dest = canon2(mk("file", freezable(p), "a" if po.one("APPEND_OPTION") is not None else "w"))
                ok, dt = agree(fd[0], dest)
                if not ok:
                    return "ok", (W, ok, dt)
                dest = fd[0]
            elif [k for k in got if k != "stdout"]:
                return "ok", (W, False, "written to %s" % show([k for k in got if k != "stdout"][0]))
            toks = got.get(dest, [])
            wants = want[1] if isinstance(want, tuple) and want and want[0] == "either" else [want]
            res = []
            for w in wants:
                if dest == "stdout":
                    # what comes before is not the recorder's output
                    best = None
                    for k in starts(toks):
                        m = match(toks[k:], w)
                        if m[0]:
                            best = m
                            break
                        if best is None or weight(toks[k:], w) > best[3]:
                            best = m + (weight(toks[k:], w),)
                    m = best[:3] if best else (False, P, "nothing is printed")
                else:
                    m = match(toks, w)
                res.append(m)
                if m[0]:
                    break
            r = [m for m in res if m[0]] or [m for m in res if m[0] is None] or res
            return "ok", ("tokens",) + r[0]
        except Undecided as e:
            return "und", str(e)
    try:
        for case, (k, r) in cases(go):
            if k == "raise":
                if not excused18(case, r):
                    und = any(f[0] not in ("defined", "none", "true", "nonempty") for f in case.facts)
                    t.add(A, at[0], what, None if und else False, "%s %s" % (r.kind, show(r.value) if r.value is not None else ""), form)
            elif k == "und":
                t.add(A, at[0], what, None, r, form)
            elif k == "ok":
                t.add(A, at[0], what, True, "", form)
                if r[0] == W:
                    t.add(W, at[0], what, r[1], r[2], form)
                else:
                    _, ok, rule, dt = r
                    if ok:
                        for x in (P, H, Q, W):
                            t.add(x, at[0], what, True, "", form)
                    else:
                        t.add(rule or P, at[0], what, ok, dt, form)
    except Undecided as e:
        t.add(A, at[0], what, None, str(e), form)


def starts(toks):
    return [0] + [i + 1 for i, x in enumerate(toks) if x == NL]


def weight(toks, want):
    n = 0
    for g, w in zip(toks, want):
        if w == NL and g == NL:
            n += 1
        elif w == NL or g == NL or w[0] != g[0] and w != ANY:
            break
        else:
            n += 1
    return n - abs(len(toks) - len(want))


def shape_word(st):
    return [c[1] for c in st.children][0].text.strip("-")


def excused18(case, e):
    for f, v in case.facts.items():
        if f[0] == "defined" and not v:
            return True
        if f[0] == "none" and v and isinstance(f[1], Term) and f[1].op in ("var", "py", "eval", "attr", "call"):
            return True
        if f[0] == "true" and not v and "AreSame" in show(f[1]):
            return True
    return False


def several(c, t, g, dv, an):
    """Two recorders and two analyses; a recorder defined again."""
    base = [d for d in forms_cache(dv) if shape(d) == "RECORDER ID DETFN ID DOLLARS ID"]
    if not base:
        c.broken("no recorder of a deterministic function")
        return
    d = base[0]

    def go(same):
        def f(case):
            try:
                s = Session(case)
                s.dirs = {}
                a, b = Tree(g, d, "a/").root, Tree(g, d, "b/").root
                if same:
                    b.one("recorder_id").one("ID").text = a.one("recorder_id").one("ID").text
                s.command(a)
                s.command(b)
                outs = []
                for i in range(2):
                    s.I.out = []
                    s.command(Tree(g, an, "analyze/").root)
                    outs.append(streams(s.I.out).get("stdout", []))
                want = [expected(s, x, "detfn") for x in ((b,) if same else (a, b))]
                c.functions |= s.I.functions
                return "ok", outs, want, where_of(s, "detfn")
            except Skip:
                return "skip",
            except PyRaise as e:
                return "raise", e
            except Undecided as e:
                return "und", str(e)
        what = "a recorder defined again" if same else "two recorders"
        for case, r in cases(f):
            if r[0] == "und":
                t.add(M, "src/pyslat.py", what, None, r[1], what)
            elif r[0] == "raise":
                if not excused18(case, r[1]) and not any(k[0] not in ("defined", "none", "true") for k in case.facts):
                    t.add(M, "src/pyslat.py", what, False, r[1].kind, what)
            elif r[0] == "ok":
                for o in r[1]:
                    ok, dt = contains(o, r[2])
                    t.add(M, r[3], what, ok, dt, what)
    go(False)
    go(True)


def contains(toks, wants):
    """The wanted outputs, in order, are what is printed besides the names of
    the recorders."""
    i, n = 0, 0
    while i < len(toks):
        # is the next wanted output here?
        hit = False
        for k, w in enumerate(wants):
            if i in starts(toks) and match(toks[i:i + len(w)], w)[0]:
                if k != n:
                    return False, "output %d of %d comes %s" % (k + 1, len(wants), "again" if k < n else "too early")
                n += 1
                i += len(w)
                hit = True
                break
        if not hit:
            i += 1
    return (True, "") if n == len(wants) else (False, "%d of %d recorders print" % (n, len(wants)))


_forms = []


def forms_cache(dv):
    if not _forms:
        _forms.extend(forms(dv))
    return _forms
