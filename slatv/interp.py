"""Flow-sensitive abstract interpreter over the resolved program.

State of the analysis at a program point is a set of abstract worlds
(store of access paths -> sets of value terms, known branch facts, and one
automaton state of the client analysis).  Worlds are joined at control-flow
merges whenever their automaton states agree (property-simulation join), loops
are iterated to a fixed point, calls to functions of the repository are
analysed in their calling context, and constructors, destructors and exception
edges are followed.  Values are Herbrand terms (value numbers): the analysis
never computes with numbers and never calls a solver.
"""
import itertools

# --------------------------------------------------------------------- terms
_tab = {}
_ids = itertools.count(1)


class T:
    __slots__ = ("op", "a", "i", "size", "vol")

    def __repr__(self):
        return show(self)

    def __lt__(self, o):
        return self.i < o.i


VOL = {"f", "idx", "g", "count", "icall", "size"}


def mk(op, *a):
    k = (op,) + a
    t = _tab.get(k)
    if t is None:
        t = T()
        t.op, t.a = op, a
        t.i = next(_ids)
        s = 1
        vol = op in VOL
        for x in a:
            if isinstance(x, T):
                s += x.size
                vol = vol or x.vol
            elif isinstance(x, (frozenset, tuple)):
                for y in x:
                    if isinstance(y, T):
                        s += y.size
                        vol = vol or y.vol
        t.size = s
        t.vol = vol
        _tab[k] = t
    return t


def show(t, d=0):
    if not isinstance(t, T):
        if isinstance(t, frozenset):
            return "{" + "|".join(sorted(show(x, d + 1) for x in t)) + "}"
        if isinstance(t, tuple):
            return "(" + ",".join(show(x, d + 1) for x in t) + ")"
        return str(t)
    if d > 14:
        return "…"
    o, a = t.op, t.a
    if o == "f":
        return "%s.%s" % (show(a[0], d + 1), a[1])
    if o == "idx":
        return "%s[%s]" % (show(a[0], d + 1), show(a[1], d + 1))
    if o == "obj":
        return "this"
    if o in ("param", "g"):
        return str(a[0]).replace("SLAT::", "")
    if o == "v":
        return str(a[2])
    if o == "lit":
        return repr(a[0]) if not isinstance(a[0], str) else '"%s"' % a[0]
    if o == "bin":
        return "(%s %s %s)" % (show(a[1], d + 1), a[0], show(a[2], d + 1))
    if o == "un":
        return "%s(%s)" % (a[0], show(a[1], d + 1))
    if o == "clo":
        return "λ"
    if o == "phi":
        return "φ(%s)" % show(a[1], d + 1)
    if o == "addr":
        return "&" + show(a[0], d + 1)
    if o in ("m", "ext", "icall"):
        return "%s(%s)" % (show(a[0], d + 1).split("::")[-1], ", ".join(show(x, d + 1) for x in a[1:]))
    return "%s(%s)" % (o, ", ".join(show(x, d + 1) for x in a))


def S(*t):
    return frozenset(t)


def lit(v):
    if isinstance(v, float) and v == int(v) if isinstance(v, float) and abs(v) < 1e15 else False:
        v = int(v)
    if isinstance(v, bool):
        return mk("lit", "true" if v else "false")
    return mk("lit", v)


TRUE, FALSE, NULL = mk("lit", "true"), mk("lit", "false"), mk("lit", None)
STAR = mk("lit", "*")
NAN, INF = mk("nan"), mk("inf")


def subterms(t, seen=None):
    """All terms inside t (through tuples and sets), each once."""
    if seen is None:
        seen = set()
    st = [t]
    while st:
        x = st.pop()
        if isinstance(x, T):
            if x in seen:
                continue
            seen.add(x)
            st.extend(x.a)
        elif isinstance(x, (tuple, frozenset)):
            st.extend(x)
    return seen


def subst(t, m):
    if isinstance(t, frozenset):
        return frozenset(subst(x, m) for x in t)
    if isinstance(t, tuple):
        return tuple(subst(x, m) for x in t)
    if not isinstance(t, T):
        return t
    if t in m:
        return m[t]
    return mk(t.op, *(subst(x, m) for x in t.a))


def root(t):
    while isinstance(t, T) and t.op in ("f", "idx", "addr", "iter", "key"):
        t = t.a[0]
    return t


def path_fields(t):
    """Field names from the root to t."""
    out = []
    while isinstance(t, T) and t.op in ("f", "idx", "addr", "iter", "key"):
        if t.op == "f":
            out.append(t.a[1])
        elif t.op == "idx":
            out.append("[]")
        t = t.a[0]
    return out[::-1]


# -------------------------------------------------------------------- worlds
class World:
    __slots__ = ("store", "facts", "dom", "ret")

    def __init__(self, store=None, facts=frozenset(), dom=None):
        self.store = store if store is not None else {}
        self.facts = facts
        self.dom = dom
        self.ret = None

    def copy(self):
        w = World(dict(self.store), self.facts, self.dom)
        w.ret = self.ret
        return w

    def fact(self, t):
        if (t, True) in self.facts:
            return True
        if (t, False) in self.facts:
            return False
        return None


class Ev:
    """An event handed to the client."""
    __slots__ = ("k", "d", "file", "line", "fn", "node", "stack")

    def __init__(self, k, d, file, line, fn, node, stack):
        self.k, self.d, self.file, self.line, self.fn, self.node, self.stack = k, d, file, line, fn, node, stack

    def at(self):
        return "%s:%s" % (self.file, self.line)


class Client:
    """Default client; analyses override what they need."""
    throws = False        # follow exceptional edges
    lists = False         # tell the elements of a list apart
    merge = "esp"         # or 'paths'
    drop_on_lock = False  # other threads may change memory at lock operations
    max_worlds = 48
    inline_integration = False

    def policy(self, e, fn, obj):
        return "inline"

    def opaque_term(self, e, fn, obj, args):
        return None

    def on(self, w, ev):
        return None

    def maythrow(self, e):
        """External call that may throw."""
        return False

    def icall_throws(self, e, t):
        """Call of an unknown callable."""
        return True


class Frame:
    __slots__ = ("fn", "depth", "this", "file", "retref", "stack")

    def __init__(self, fn, depth, this, file, retref, stack):
        self.fn, self.depth, self.this, self.file, self.retref, self.stack = fn, depth, this, file, retref, stack


MATH1 = {"fabs": "abs", "abs": "abs", "fabsf": "abs"}
SMART = ("std::__shared_ptr_access", "std::shared_ptr", "std::__shared_ptr", "std::unique_ptr", "boost::shared_ptr",
         "std::weak_ptr")
MAPS = ("std::map", "std::unordered_map", "std::multimap")
SEQS = ("std::vector", "std::list", "std::deque", "std::stack", "std::queue", "std::set", "std::array",
        "std::unordered_set")
ITERS = ("__gnu_cxx::__normal_iterator", "std::_List_iterator", "std::_Rb_tree_iterator", "std::_List_const_iterator",
         "std::_Rb_tree_const_iterator", "std::__detail::_Node_iterator", "std::__detail::_Node_const_iterator",
         "std::__detail::_Node_iterator_base", "std::_Deque_iterator")


class TooBig(Exception):
    pass


def same_expr(a, b):
    """the same variable, or the same field of the same object, written twice"""
    if a.get("k") != b.get("k"):
        return False
    if a["k"] == "ref":
        return a.get("d") == b.get("d")
    if a["k"] == "mem":
        return a.get("f") == b.get("f") and same_expr(a["b"], b["b"])
    return a["k"] == "this"


WRITING = {"transform", "generate", "generate_n", "fill", "fill_n", "copy", "copy_n", "copy_if", "copy_backward", "for_each", "sort", "stable_sort", "iota",
           "reverse", "rotate", "replace", "replace_if", "remove", "remove_if", "unique", "partial_sum", "adjacent_difference", "move", "swap_ranges",
           "iter_swap", "back_inserter", "merge", "inplace_merge", "partition", "stable_partition", "nth_element", "partial_sort"}


class Interp:
    def __init__(self, prog, client):
        self.p = prog
        self.c = client
        self.tstack = [[]]
        self.mute = 0
        self.steps = 0
        self.max_steps = 3000000
        self.inlined = set()
        self.calls = 0
        self.phi_entry = {}
        self.lsites = {}
        self.phi_back = {}
        self.phi_backs = {}
        self.cell_backs = {}
        self.cell_fresh = {}
        self._uid = itertools.count(1)
        self.cloctx = {}

    # ---- helpers
    def uid(self, e):
        u = e.get("_u")
        if u is None:
            u = e["_u"] = next(self._uid)
        return u

    def emit(self, w, fr, e, k, **d):
        if k == "read" and e.get("_nr"):
            return [w]
        ev = Ev(k, d, fr.file, e.get("l") if isinstance(e, dict) else 0, fr.fn["q"] if fr.fn else "", e, fr.stack)
        r = self.c.on(w, ev)
        return [w] if r is None else r

    # ---- store
    def read1(self, w, loc):
        s = w.store
        v = s.get(loc)
        ov = s.get(mk("ov", loc))
        if ov:
            base = next(iter(v)) if v and len(v) == 1 else loc
            items = []
            for k in sorted(ov, key=lambda x: (isinstance(x, T), x.i if isinstance(x, T) else x)):
                l2 = mk("idx", loc, k) if isinstance(k, T) else mk("f", loc, k)
                items.append((k, self.read1(w, l2)))
            return S(mk("rec", tuple(items), base))
        if v is not None:
            return v
        if loc.op == "f":
            b = s.get(loc.a[0])
            if b is not None and loc.a[0] in s:
                out = set()
                for t in b:
                    out |= self.fieldof(w, t, loc.a[1])
                return frozenset(out)
            if b is None and loc.a[0].op == "idx" and root(loc.a[0]).op == "v" and not s.get(mk("ov", loc.a[0])):
                # a member of an element of a list which is a copy
                b = self.read1(w, loc.a[0])
                if b != S(loc.a[0]):
                    return frozenset(x for t in b for x in self.fieldof(w, t, loc.a[1]))
        elif loc.op == "idx":
            b = s.get(loc.a[0])
            out = set()
            if b is not None:
                for t in b:
                    out |= self.elemof(w, t, loc.a[1])
            ov2 = s.get(mk("ov", loc.a[0]))
            if ov2 and self.c.lists:
                hit = self.written(w, loc, ov2)
                if hit is not None:
                    return hit
            if ov2 and self.c.lists and any(isinstance(k, T) and k is not loc.a[1] and self.elsewhere(k, loc.a[1]) and mk("idx", loc.a[0], k) in s for k in ov2):
                # the loop writes another element in each iteration: this one
                # as it is when the iteration begins
                return S(mk("prior", loc.a[0], loc.a[1]))
            if ov2:
                for k in ov2:
                    if isinstance(k, T) and (k is STAR or loc.a[1] is STAR or not (k.op == "lit" and loc.a[1].op == "lit")):
                        out |= self.read1(w, mk("idx", loc.a[0], k)) if mk("idx", loc.a[0], k) in s or s.get(mk("ov", mk("idx", loc.a[0], k))) else set()
            if out:
                return frozenset(out)
        elif loc.op == "rec":
            return S(loc)
        return S(loc)

    def elsewhere(self, k, key):
        """Two elements a fixed distance apart, both moving with a loop under way."""
        return self.apart(k, key) and any(x.op == "phi" and x.a[0] in self.sites for x in subterms(key))

    def written(self, w, loc, keys):
        """An element of a list which a finished loop has filled."""
        c, key = loc.a
        if key is STAR:
            return None
        hits = []
        for k in keys:
            if not isinstance(k, T) or k is STAR:
                continue
            if k.op == "lit" and key.op == "lit":
                continue
            hits.append(k)
        if len(hits) == 1 and hits[0].op == "phi" and hits[0].a[0] not in self.sites and \
                not any(x.op == "phi" and x.a[0] == hits[0].a[0] for x in subterms(key)):
            ph = hits[0]
            vs = self.read1(w, mk("idx", c, ph)) - {mk("dflt")}
            if vs:
                return frozenset(subst(v, {ph: key}) for v in vs)
        return None

    def fieldof(self, w, t, name):
        if t.op == "rec":
            for k, v in t.a[0]:
                if k == name:
                    return v
            base = t.a[1]
            if isinstance(base, T) and base.op not in ("rec",):
                return S(mk("f", base, name))
            return S(mk("f", t, name))
        if t.op == "addr":
            return self.read1(w, mk("f", t.a[0], name))
        l = mk("f", t, name)
        return self.read1(w, l) if l in w.store else S(l)

    def elemof(self, w, t, key):
        if t.op == "rec":
            hit = set()
            for k, v in t.a[0]:
                if isinstance(k, T):
                    if k is key:
                        return v
                    if not (k.op == "lit" and key.op == "lit") or k is STAR or key is STAR:
                        hit |= v
            if hit:
                return frozenset(hit)
            base = t.a[1]
            return S(mk("idx", base if isinstance(base, T) else t, key))
        if t.op in ("sized", "blank"):
            return frozenset()
        return S(mk("idx", t, key))

    def read(self, w, locs):
        if len(locs) == 1:
            return self.read1(w, next(iter(locs)))
        out = set()
        for l in locs:
            out |= self.read1(w, l)
        return frozenset(out)

    def clear_under(self, w, loc):
        ov = w.store.pop(mk("ov", loc), None)
        if ov:
            for k in ov:
                l2 = mk("idx", loc, k) if isinstance(k, T) else mk("f", loc, k)
                self.clear_under(w, l2)
                w.store.pop(l2, None)

    def write1(self, w, loc, vals, strong=True):
        if len(vals) > 10:
            vals = S(mk("top", loc))
        if not strong:
            vals = vals | self.read1(w, loc)
            if len(vals) > 10:
                vals = S(mk("top", loc))
        if strong:
            self.clear_under(w, loc)
        if len(vals) == 1:
            t = next(iter(vals))
            if t.op == "rec":
                w.store[loc] = S(t.a[1]) if isinstance(t.a[1], T) and t.a[1] is not loc else S(mk("blank", loc))
                for k, v in t.a[0]:
                    l2 = mk("idx", loc, k) if isinstance(k, T) else mk("f", loc, k)
                    self.write1(w, l2, v)
                self.link(w, loc)
                return
        w.store[loc] = vals
        self.link(w, loc)

    def link(self, w, loc):
        if loc.op in ("f", "idx"):
            r = root(loc)
            if r.op in ("v", "new", "tmp", "obj"):
                b, k = loc.a
                key = mk("ov", b)
                o = w.store.get(key, frozenset())
                if k not in o:
                    w.store[key] = o | {k}
                    self.link(w, b)

    def maybe(self, w, l, vals):
        """Elements which a write at another index may have changed as well."""
        c, key = l.a
        for k in w.store.get(mk("ov", c), ()):
            if not isinstance(k, T) or k is key or k.op == "lit" and key.op == "lit":
                continue
            if k is STAR or any(x.op == "phi" for x in subterms(k)):
                continue
            if self.apart(k, key):
                continue
            p = mk("idx", c, k)
            if p in w.store and mk("ov", p) not in w.store:
                w.store[p] = w.store[p] | vals

    @staticmethod
    def apart(a, b):
        def lin(t):
            if t.op == "bin" and t.a[0] in ("+", "-") and t.a[2].op == "lit" and isinstance(t.a[2].a[0], int):
                return t.a[1], t.a[2].a[0] * (1 if t.a[0] == "+" else -1)
            return t, 0
        (x, i), (y, j) = lin(a), lin(b)
        return x is y and i != j

    def write(self, w, fr, e, locs, vals):
        strong = len(locs) == 1 and not any(x is STAR for x in next(iter(locs)).a)
        for l in locs:
            if self.c.lists and l.op == "idx":
                self.maybe(w, l, vals)
            self.write1(w, l, vals, strong)
        return self.emit(w, fr, e, "write", locs=locs, vals=vals)

    # ---- joins
    def join(self, ws):
        if len(ws) == 1:
            return ws[0]
        a = ws[0].copy()
        for b in ws[1:]:
            if b.store is not a.store:
                keys = set(a.store) | set(b.store)
                for k in keys:
                    x, y = a.store.get(k), b.store.get(k)
                    if x is y or x == y:
                        continue
                    if k.op == "ov":
                        a.store[k] = (x or frozenset()) | (y or frozenset())
                        continue
                    if k.op == "dt":
                        a.store[k] = x or y
                        continue
                    if x is None:
                        x = self.missing(a, k)
                    if y is None:
                        y = self.missing(b, k)
                    u = x | y
                    if len(u) > 10:
                        u = S(mk("top", k))
                    a.store[k] = u
            a.facts = a.facts & b.facts
            if a.ret is not None or b.ret is not None:
                u = (a.ret or frozenset()) | (b.ret or frozenset())
                a.ret = u if len(u) <= 10 else S(mk("top", mk("lit", "ret")))
        return a

    def missing(self, w, k):
        if k.op in ("v", "r"):
            return frozenset()
        return self.read1(w, k)

    def merge(self, ws):
        if len(ws) <= 1:
            return ws
        if self.c.merge == "paths":
            seen, u = set(), []
            for w in ws:
                k = (w.dom, w.facts, w.ret, frozenset(w.store.items()))
                if k not in seen:
                    seen.add(k)
                    u.append(w)
            ws = u
            if len(ws) <= self.c.max_worlds:
                return ws
        g = {}
        for w in ws:
            g.setdefault(w.dom, []).append(w)
        return [self.join(x) for x in g.values()]

    # ---- functions
    def run(self, fn, this=None, args=None, world=None, file=None):
        """Analyses fn as an entry point: list of (world, outcome)."""
        w = world or World()
        fr = Frame(None, 0, None, fn["file"], False, ())
        argv = []
        for i, prm in enumerate(fn.get("params", [])):
            if args and i < len(args) and args[i] is not None:
                argv.append(("V", args[i]))
            else:
                argv.append(("V", S(mk("param", prm["name"] or "arg%d" % i))))
        self.tstack.append([])
        outs = self.inline(w, fr, fn, this, argv, {"l": fn["line"]}, final=True)
        th = self.tstack.pop()
        return [(x, "return") for x in outs] + [(x, "throw") for x in th]

    def bind_params(self, w, fr, fn, argv):
        for prm, (kind, val) in zip(fn.get("params", []), argv):
            loc = mk("v", fr.depth, prm["id"], prm["name"])
            if prm["t"].rstrip().endswith("&"):
                w.store[mk("r", fr.depth, prm["id"])] = val
            else:
                w.store.pop(mk("r", fr.depth, prm["id"]), None)
                v = self.read(w, val) if kind == "L" else val
                self.write1(w, loc, v)

    def inline(self, w, fr, fn, this, argv, e, caps=None, final=False):
        depth = fr.depth + 1
        if len(fr.stack) > 60:
            raise TooBig("call depth")
        self.inlined.add(fn["id"])
        self.calls += 1
        nf = Frame(fn, depth, this, fn["file"], fn.get("ret", "").rstrip().endswith("&"),
                   fr.stack + ((fn["id"], this),))
        w = w.copy()
        w.ret = None
        self.bind_params(w, nf, fn, argv)
        if caps:
            for d, kind, val, nm in caps:
                if kind == "ref":
                    w.store[mk("r", depth, d)] = val
                else:
                    w.store.pop(mk("r", depth, d), None)
                    self.write1(w, mk("v", depth, d, nm), val)
        ws = [w]
        if fn.get("inits"):
            ws = self.ctor_inits(ws, nf, fn)
        ws = [x for w in ws for x in self.emit(w, nf, {"l": fn["line"]}, "enter", fn=fn, this=this)]
        outs = []
        if "body" in fn:
            for w in ws:
                r = self.exec(fn["body"], w, nf)
                for w2 in r.get("fall", []):
                    if fn.get("ret") == "void" or fn["k"] in ("ctor", "dtor"):
                        w2.ret = None
                    outs.append(w2)
                outs += r.get("return", [])
        else:
            outs = ws
        outs = [x for w in outs for x in self.emit(w, nf, {"l": fn.get("endline", fn["line"])}, "leave", fn=fn, this=this)]
        if fn["k"] == "dtor" and this:
            pass
        if not final:
            outs = self.merge(outs)
        for w in outs:
            self.kill_frame(w, depth)
        return outs

    def kill_frame(self, w, depth):
        dead = [k for k in w.store if (k.op in ("v", "r") and k.a[0] >= depth) or
                (k.op in ("f", "idx", "ov", "dt", "rr") and self._deadroot(k, depth))]
        if not dead:
            return
        live = set()
        if w.ret:
            live |= {x for t in w.ret for x in subterms(t) if x.op == "v"}
        for k, v in w.store.items():
            if k.op in ("f", "idx", "v") and not (root(k).op == "v" and root(k).a[0] >= depth) and isinstance(v, frozenset):
                for t in v:
                    if isinstance(t, T):
                        for x in subterms(t):
                            if x.op == "v":
                                live.add(x)
        for k in dead:
            r = root(k.a[0] if k.op in ("ov", "dt", "rr") else k)
            if r in live:
                continue
            w.store.pop(k, None)

    @staticmethod
    def _deadroot(k, depth):
        r = root(k.a[0] if k.op in ("ov", "dt", "rr") else k)
        return r.op == "v" and r.a[0] >= depth

    def ctor_inits(self, ws, nf, fn):
        for i in fn["inits"]:
            out = []
            for w in ws:
                e = i.get("e")
                if e is None:
                    out.append(w)
                    continue
                if "name" in i and self.isref(fn, i["name"]) and nf.this:
                    # a reference member stands for what it is bound to
                    for w2, ls in self.lv(e, w, nf):
                        w2 = w2.copy()
                        for t in nf.this:
                            w2.store[mk("rr", t, i["name"])] = ls
                        out.append(w2)
                elif "name" in i:
                    locs = S(*[mk("f", t, i["name"]) for t in nf.this]) if nf.this else frozenset()
                    out += self.init_loc(w, nf, e, locs, i)
                else:
                    out += self.construct(w, nf, e, nf.this)
            ws = self.merge(out)
        return ws

    def isref(self, fn, field):
        for x in self.p.records.get(fn.get("rec") or "", {}).get("fields", []):
            if x["name"] == field:
                return x.get("t", "").rstrip().endswith("&")
        return False

    def init_loc(self, w, fr, e, locs, node):
        """Initialise a location from an initialiser expression."""
        if e["k"] == "ctor" and not e.get("copy") and self.is_repo_ctor(e):
            return self.construct(w, fr, e, locs)
        out = []
        for w2, v in self.rv(e, w, fr):
            w3 = w2
            out += self.write(w3, fr, node if node.get("l") else e, locs, v)
        return out

    def is_repo_ctor(self, e):
        f = self.p.funcs.get(e.get("f"))
        return bool(f and (("body" in f) or f.get("inits")) and e.get("inrepo"))

    def construct(self, w, fr, e, locs):
        """Run constructor expression e on the object(s) at locs."""
        if e["k"] != "ctor":
            out = []
            for w2, v in self.rv(e, w, fr):
                out += self.write(w2, fr, e, locs, v)
            return out
        f = self.p.funcs.get(e.get("f"))
        if not self.is_repo_ctor(e) or e.get("copy"):
            out = []
            for w2, v in self.rv(e, w, fr):
                if e.get("cls", "").startswith("SLAT::Replaceable") and not e.get("copy"):
                    out.append(w2)
                    continue
                out += self.write(w2, fr, e, locs, v)
            return out
        out = []
        for w2, argv in self.eval_args(e, f, w, fr):
            if self.in_stack(fr, f, locs) or self.c.policy(e, f, locs) != "inline":
                for w3 in self.emit(w2, fr, e, "construct", cls=e.get("cls"), locs=locs, args=argv):
                    t = self.c.opaque_term(e, f, locs, argv)
                    if t is not None:
                        for l in locs:
                            self.write1(w3, l, t)
                    out.append(w3)
                continue
            for w3 in self.emit(w2, fr, e, "construct", cls=e.get("cls"), locs=locs, args=argv):
                for w4 in self.inline(w3, fr, f, locs, argv, e):
                    w4.ret = None
                    out.append(w4)
        return out

    def in_stack(self, fr, f, this):
        n = sum(1 for (i, t) in fr.stack if i == f["id"])
        return n >= 2 or any(i == f["id"] and t == this for (i, t) in fr.stack)

    def eval_args(self, e, f, w, fr):
        """[(world, [('L'|'V', set)])]"""
        prms = f.get("params", []) if f else []
        pts = e.get("pt", [])
        res = [(w, [])]
        for i, a in enumerate(e.get("a", [])):
            pt = prms[i]["t"] if i < len(prms) else (pts[i] if i < len(pts) else "")
            nr = []
            for w1, acc in res:
                if pt.rstrip().endswith("&"):
                    if isinstance(a, dict):
                        a["_nr"] = not pt.startswith("const ")     # binding a reference is no access
                    for w2, locs in self.lv(a, w1, fr):
                        nr.append((w2, acc + [("L", locs)]))
                else:
                    for w2, v in self.rv(a, w1, fr):
                        nr.append((w2, acc + [("V", v)]))
            res = nr
        return res

    # ---- statements
    def exec(self, s, w, fr):
        self.steps += 1
        if self.steps > self.max_steps:
            raise TooBig("analysis budget exceeded in " + (fr.fn or {}).get("q", "?"))
        if s is None:
            return {"fall": [w]}
        return getattr(self, "x_" + s["k"], self.x_other)(s, w, fr)

    @staticmethod
    def add(acc, r, skip=()):
        for k, v in r.items():
            if k not in skip and v:
                acc.setdefault(k, []).extend(v)

    def x_block(self, s, w, fr):
        acc = {}
        ws = [w]
        self.tstack.append([])
        dts = []
        for st in s["s"]:
            if not ws:
                break
            nxt = []
            for w1 in ws:
                r = self.exec(st, w1, fr)
                nxt += r.pop("fall", [])
                self.add(acc, r)
            ws = self.merge(nxt)
            if st and st["k"] == "decl":
                for v in st["vars"]:
                    if self.needs_dtor(v):
                        dts.append(v)
        if ws:
            acc.setdefault("fall", []).extend(ws)
        th = self.tstack.pop()
        if dts:
            for k in list(acc):
                acc[k] = self.run_dtors(acc[k], dts, fr)
            th = self.run_dtors(th, dts, fr, unwinding=True)
        if th:
            self.tstack[-1].extend(self.merge(th))
        return acc

    @staticmethod
    def is_guard(v):
        return v["t"].replace("const ", "").startswith(("std::lock_guard<", "std::unique_lock<", "std::scoped_lock<"))

    def needs_dtor(self, v):
        if self.is_guard(v):
            return True
        if v.get("ref") or v["t"].rstrip().endswith("*") or v.get("static"):
            return False
        d = self.p.dtor_of.get(v.get("rec") or "")
        return bool(d and "body" in d and v["t"].replace("const ", "").strip() == v["rec"])

    def run_dtors(self, ws, dts, fr, unwinding=False):
        for v in reversed(dts):
            loc = mk("v", fr.depth, v["id"], v["n"])
            out = []
            if self.is_guard(v):
                for w in ws:
                    locs = w.store.get(mk("dt", loc))
                    if not locs:
                        out.append(w)
                        continue
                    w = w.copy()
                    w.store.pop(mk("dt", loc), None)
                    ret = w.ret
                    for w2 in self.emit(w, fr, {"l": v.get("l")}, "lock", op="omp_unset_nest_lock" if "recursive" in v["t"] else "omp_unset_lock", locs=locs):
                        w2.ret = ret
                        out.append(w2)
                ws = out
                continue
            d = self.p.dtor_of[v["rec"]]
            for w in ws:
                if mk("dt", loc) not in w.store:
                    out.append(w)
                    continue
                w = w.copy()
                w.store.pop(mk("dt", loc), None)
                ret = w.ret
                if self.c.policy({"k": "dtor", "q": d["q"], "n": d["name"], "cl": v["rec"], "inrepo": True}, d, S(loc)) != "inline":
                    for w2 in self.emit(w, fr, {"l": v.get("l")}, "dtor", rec=v["rec"], loc=loc):
                        w2.ret = ret
                        out.append(w2)
                    continue
                for w2 in self.inline(w, fr, d, S(loc), [], {"l": v.get("l")}):
                    w2.ret = ret
                    out.append(w2)
            ws = out
        return ws

    def x_decl(self, s, w, fr):
        ws = [w]
        for v in s["vars"]:
            out = []
            loc = mk("v", fr.depth, v["id"], v["n"])
            if v.get("static"):
                loc = mk("g", "%s::%s" % (fr.fn["q"], v["n"]))
                for w1 in ws:
                    w1.store[mk("r", fr.depth, v["id"])] = S(loc)
                    for w2 in self.emit(w1, fr, {"l": v.get("l")}, "staticlocal", loc=loc, var=v):
                        out.append(w2)
                ws = out
                continue
            for w1 in ws:
                w1 = w1.copy()
                self.clear_under(w1, loc)
                w1.store.pop(loc, None)
                w1.store.pop(mk("r", fr.depth, v["id"]), None)
                if v.get("ref"):
                    if v.get("i") is not None:
                        for w2, locs in self.lv(v["i"], w1, fr):
                            w2.store[mk("r", fr.depth, v["id"])] = locs
                            out.append(w2)
                    else:
                        out.append(w1)
                    continue
                if self.is_guard(v) and isinstance(v.get("i"), dict) and v["i"].get("k") == "ctor" and v["i"].get("a"):
                    for w2, locs in self.lv(v["i"]["a"][0], w1, fr):
                        for w3 in self.emit(w2, fr, {"l": v.get("l")}, "lock", op="omp_set_nest_lock" if "recursive" in v["t"] else "omp_set_lock", locs=locs):
                            w3.store[mk("dt", loc)] = locs
                            out.append(w3)
                    continue
                if v.get("i") is None:
                    w1.store[loc] = S(mk("undef", v["id"]))
                    out.append(w1)
                    continue
                e = v["i"]
                res = self.init_loc(w1, fr, e, S(loc), {"l": v.get("l"), "k": "decl"})
                if self.needs_dtor(v) and not self.is_guard(v):
                    for w2 in res:
                        w2.store[mk("dt", loc)] = S(TRUE)
                out += res
            ws = self.merge(out)
        return {"fall": ws}

    def x_expr(self, s, w, fr):
        return {"fall": self.merge([x for x, _ in self.ev(s["e"], w, fr)])}

    def x_null(self, s, w, fr):
        return {"fall": [w]}

    def x_return(self, s, w, fr):
        out = []
        if s.get("e") is None:
            w = w.copy()
            w.ret = None
            out = [w]
        else:
            if fr.retref:
                rs = self.lv(s["e"], w, fr)
            else:
                rs = self.rv(s["e"], w, fr)
            for w2, v in rs:
                w2 = w2.copy()
                w2.ret = v
                out.append(w2)
        out2 = []
        for w2 in out:
            out2 += self.emit(w2, fr, s, "return", val=w2.ret)
        return {"return": out2}

    def x_break(self, s, w, fr):
        return {"break": [w]}

    def x_continue(self, s, w, fr):
        return {"continue": [w]}

    def x_if(self, s, w, fr):
        acc = {}
        ws = [w]
        if s.get("init"):
            r = self.exec(s["init"], w, fr)
            ws = r.pop("fall", [])
            self.add(acc, r)
        if s.get("cv"):
            ws = [x for w1 in ws for x in self.x_decl({"vars": [s["cv"]]}, w1, fr)["fall"]]
        fall = []
        for w1 in ws:
            for w2, b in self.cond(s["c"], w1, fr):
                br = s["t"] if b else s.get("e")
                if br is None:
                    fall.append(w2)
                else:
                    r = self.exec(br, w2, fr)
                    fall += r.pop("fall", [])
                    self.add(acc, r)
        if fall:
            acc["fall"] = acc.get("fall", []) + self.merge(fall)
        return acc

    def gen_head(self, entry, backs, site):
        """Loop head world set from entry worlds and back-edge worlds."""
        g = {}
        for w in entry:
            g.setdefault(w.dom, []).append((w, True))
        for w in backs:
            g.setdefault(w.dom, []).append((w, False))
        heads = []
        allentry = entry
        for dom, lst in g.items():
            ws = [x for x, _ in lst]
            a = ws[0].copy()
            facts = ws[0].facts
            for x in ws[1:]:
                facts = facts & x.facts
            # facts established only on back edges never survive
            for x in allentry:
                facts = facts & x.facts
            a.facts = facts
            allw = ws + [x for x in allentry if x not in ws]
            if len(allw) > 1:
                keys = set()
                for x in allw:
                    keys |= set(x.store)
                for k in keys:
                    vs = [x.store.get(k) for x in allw]
                    if all(v is not None for v in vs) and all(v == vs[0] for v in vs):
                        a.store[k] = vs[0]
                        continue
                    if k.op == "ov":
                        u = frozenset()
                        for v in vs:
                            u |= v or frozenset()
                        a.store[k] = u
                        continue
                    if k.op in ("dt",):
                        if vs[0] is None and len(ws) == 1:
                            a.store.pop(k, None)
                        continue
                    if k.op == "r":
                        u = frozenset()
                        for v in vs:
                            u |= v or frozenset()
                        a.store[k] = u
                        continue
                    vals = [v if v is not None else self.missing(x, k) for v, x in zip(vs, allw)]
                    u = frozenset().union(*vals)
                    ph = mk("phi", site, k)
                    if len(u) <= 6 and all(self.stableval(t) for t in u):
                        a.store[k] = u
                    elif self.indexed_by(k, site) and len(u) <= 6 and not any(self.selfdep(t, site, k) for t in u) \
                            and not self.updates(k, allentry, backs):
                        # an element chosen by the loop's own counter: each
                        # iteration writes its own, so the stored term stands
                        # for every element written so far
                        a.store[k] = u
                        if backs:
                            self.cell_backs[k] = [(x.store.get(k), x.facts) for x in backs]
                    else:
                        a.store[k] = S(ph)
                        ev = frozenset().union(*[x.store.get(k) or self.missing(x, k) for x in allentry])
                        if ev != S(ph):
                            self.phi_entry[ph] = ev
                        if backs:
                            bv = frozenset().union(*[x.store.get(k) or self.missing(x, k) for x in backs])
                            self.phi_back[ph] = bv
                            self.phi_backs[ph] = [(x.store.get(k) or self.missing(x, k), x.facts) for x in backs]
            heads.append(a)
        return heads

    @staticmethod
    def indexed_by(k, site):
        while k.op in ("f", "idx"):
            if k.op == "idx":
                x = k.a[1]
                if x.op == "bin" and x.a[0] in "+-" and x.a[2].op == "lit":
                    x = x.a[1]
                if x.op == "phi" and x.a[0] == site:
                    return True
            k = k.a[0]
        return False

    def updates(self, k, entry, backs):
        """Is the element calculated from its value before the loop?"""
        for x in entry:
            for t in self.missing(x, k):
                if t.op not in ("lit", "dflt", "undef") and any(t is y for b in backs for v in b.store.get(k, ()) for y in subterms(v)):
                    return True
        return False

    @staticmethod
    def selfdep(t, site, k):
        """Does t depend on an earlier iteration's version of k's container?"""
        r = root(k)
        for x in subterms(t):
            if x.op == "phi" and x.a[0] == site and root(x.a[1]) is r:
                return True
        return False

    @staticmethod
    def stableval(t):
        return t.op in ("clo", "fn", "new", "iter", "param", "obj", "undef", "blank") or \
            (t.op == "lit" and (t.a[0] is None or isinstance(t.a[0], str)))

    def loop(self, w, fr, site, cond, body, inc, first_body=False, bindfn=None, node=None):
        """Fixpoint; returns outcome dict with 'fall' = loop exits."""
        site = self.loopsite(w, fr, site)
        if any(self.mentions(t, site) for t, _ in w.facts):
            w = w.copy()
            w.facts = frozenset((t, b) for t, b in w.facts if not self.mentions(t, site))
        entry = [w]
        heads = [w.copy()]
        prev = None
        self.mute += 1
        for it in range(8):
            self.tstack.append([])
            backs, _ = self.loop_once(heads, fr, cond, body, inc, bindfn, first_body, node, site=site)
            self.tstack.pop()
            if it == 0 and backs:
                # the concrete first pass only tells which plain variables
                # the loop changes: start the iteration from those unknown
                h = w.copy()
                f = w.facts
                for b in backs:
                    f = f & b.facts
                    for k, v in b.store.items():
                        if k.op == "v" and k in w.store and w.store[k] != v and not all(self.stableval(t) for t in v | w.store[k]):
                            h.store[k] = S(mk("phi", site, k))
                h.facts = f
                heads = [h] + [x for x in self.other_doms(h, backs)]
                continue
            nh = self.gen_head(entry, backs, site)
            sig = self.sigof(nh)
            if sig == prev:
                break
            prev = sig
            heads = nh
        self.fresh_cells(entry, heads, site, fr, cond, body, inc, bindfn, first_body, node)
        self.mute -= 1
        _, acc = self.loop_once([h.copy() for h in heads], fr, cond, body, inc, bindfn, first_body, node, site=site)
        acc["fall"] = self.merge(acc.get("fall", []))
        return acc

    def fresh_cells(self, entry, heads, site, fr, cond, body, inc, bindfn, first_body, node):
        """Elements the loop updates in place: what one iteration writes when
        the elements it reads are still those from before the loop."""
        ks = {k for h in heads for k, v in h.store.items() if self.indexed_by(k, site) and v == S(mk("phi", site, k))}
        if not ks:
            return
        hs = []
        for h in heads:
            h = h.copy()
            for k in ks:
                h.store.pop(k, None)
            hs.append(h)
        backs, _ = self.loop_once(hs, fr, cond, body, inc, bindfn, first_body, node, site=site)
        for k in ks:
            self.cell_fresh[k] = [(x.store.get(k) or self.missing(x, k), x.facts) for x in backs]

    def loopsite(self, w, fr, uid):
        """One name per loop and entry state of the enclosing frame."""
        key = (uid, fr.this, frozenset((k, v) for k, v in w.store.items()
                                       if k.op in ("v", "r") and k.a[0] == fr.depth))
        n = self.lsites.setdefault(key, len(self.lsites))
        return "%d.%d" % (uid, n)

    @staticmethod
    def mentions(t, site):
        return any(x.op == "phi" and x.a[0] == site for x in subterms(t))

    @staticmethod
    def other_doms(h, backs):
        out = []
        for d in {b.dom for b in backs}:
            if d != h.dom:
                x = h.copy()
                x.dom = d
                out.append(x)
        return out

    @staticmethod
    def sigof(ws):
        return frozenset((w.dom, frozenset(w.store.items()), w.facts) for w in ws)

    cursite = None
    sites = ()

    def loop_once(self, heads, *args, site=None):
        old, self.cursite = self.cursite, site
        osites, self.sites = self.sites, self.sites + (site,)
        try:
            return self.loop_once1(heads, *args)
        finally:
            self.cursite = old
            self.sites = osites

    def loop_once1(self, heads, fr, cond, body, inc, bindfn, first_body, node=None):
        acc = {}
        backs = []
        for h in heads:
            if first_body:
                starts = [(h, True)]
            elif cond is None:
                starts = [(h, True)] if bindfn is None else [(h, True), (h.copy(), False)]
            else:
                starts = self.cond(cond, h, fr)
            for w1, b in starts:
                if not b:
                    acc.setdefault("fall", []).append(w1)
                    continue
                ws = [w1]
                if bindfn:
                    ws = bindfn(w1)
                for w2 in ws:
                    r = self.exec(body, w2, fr)
                    nx = r.pop("fall", []) + r.pop("continue", [])
                    brk = r.pop("break", [])
                    if node is not None:
                        nx = [x for y in nx for x in self.emit(y, fr, node, "iterend", node=node, site=self.cursite)]
                        brk = [x for y in brk for x in self.emit(y, fr, node, "loopbreak", node=node, site=self.cursite)]
                    acc.setdefault("fall", []).extend(brk)
                    self.add(acc, r)
                    nx = self.merge(nx)
                    for w3 in nx:
                        if inc is not None:
                            nxt = [x for x, _ in self.ev(inc, w3, fr)]
                        else:
                            nxt = [w3]
                        if first_body:
                            for w4 in nxt:
                                for w5, b2 in self.cond(cond, w4, fr):
                                    if b2:
                                        backs.append(w5)
                                    else:
                                        acc.setdefault("fall", []).append(w5)
                        else:
                            backs += nxt
        return self.merge(backs), acc

    def x_for(self, s, w, fr):
        acc = {}
        ws = [w]
        if s.get("i"):
            r = self.exec(s["i"], w, fr)
            ws = r.pop("fall", [])
            self.add(acc, r)
        for w1 in ws:
            for w2 in self.emit(w1, fr, s, "loop", node=s):
                r = self.loop(w2, fr, self.uid(s), s.get("c"), s["b"], s.get("n"), node=s)
                self.add(acc, r)
        acc["fall"] = [x for w in self.merge(acc.get("fall", [])) for x in self.emit(w, fr, s, "endloop", node=s)]
        return acc

    def x_while(self, s, w, fr):
        acc = {}
        for w1 in self.emit(w, fr, s, "loop", node=s):
            self.add(acc, self.loop(w1, fr, self.uid(s), s["c"], s["b"], None, node=s))
        acc["fall"] = [x for w in self.merge(acc.get("fall", [])) for x in self.emit(w, fr, s, "endloop", node=s)]
        return acc

    @staticmethod
    def never(c):
        while isinstance(c, dict) and c.get("k") in ("cast", "paren", "icast"):
            c = c.get("e")
        return isinstance(c, dict) and c.get("k") in ("lit", "bool", "int", "num") and c.get("v") in (False, 0, "0", "false")

    def x_do(self, s, w, fr):
        acc = {}
        if self.never(s["c"]):
            r = self.exec(s["b"], w, fr)
            out = r.pop("fall", []) + r.pop("break", []) + r.pop("continue", [])
            self.add(acc, r)
            acc["fall"] = self.merge(out)
            return acc
        for w1 in self.emit(w, fr, s, "loop", node=s):
            self.add(acc, self.loop(w1, fr, self.uid(s), s["c"], s["b"], None, first_body=True, node=s))
        acc["fall"] = [x for w in self.merge(acc.get("fall", [])) for x in self.emit(w, fr, s, "endloop", node=s)]
        return acc

    def x_rangefor(self, s, w, fr):
        acc = {}
        for w1, locs in self.lv(s["r"], w, fr):
            v = s["v"]
            ismap = any(m in str(s["r"].get("t", "")) for m in ("map<",))

            def bindfn(w2, locs=locs, v=v):
                w2 = w2.copy()
                el = S(*[mk("iter", l, STAR, "map") if ismap else mk("idx", l, STAR) for l in locs])
                loc = mk("v", fr.depth, v["id"], v["n"])
                if v.get("ref"):
                    w2.store[mk("r", fr.depth, v["id"])] = el
                else:
                    w2.store.pop(mk("r", fr.depth, v["id"]), None)
                    self.write1(w2, loc, el if ismap else self.read(w2, el))
                return self.emit(w2, fr, s, "elem", cont=locs, var=loc)
            for w2 in self.emit(w1, fr, s, "loop", node=s, cont=locs):
                r = self.loop(w2, fr, self.uid(s), None, s["b"], None, bindfn=bindfn, node=s)
                self.add(acc, r)
        acc["fall"] = [x for w in self.merge(acc.get("fall", [])) for x in self.emit(w, fr, s, "endloop", node=s)]
        return acc

    def x_switch(self, s, w, fr):
        acc = {}
        ws = [w]
        if s.get("init"):
            r = self.exec(s["init"], w, fr)
            ws = r.pop("fall", [])
            self.add(acc, r)
        body = s["b"]
        stmts = body["s"] if body and body["k"] == "block" else [body]
        # flatten labels
        flat = []
        for st in stmts:
            labels = []
            while st and st["k"] in ("case", "default"):
                labels.append(st)
                st = st["s"]
            flat.append((labels, st))
        fall = []
        for w1 in ws:
            for w2, cv in self.rv(s["c"], w1, fr):
                ct = next(iter(cv)) if len(cv) == 1 else mk("top", "switch%d" % self.uid(s))
                entries = []
                taken = []
                hasdef = None
                known = None
                for n, (labels, st) in enumerate(flat):
                    for lb in labels:
                        if lb["k"] == "default":
                            hasdef = n
                        else:
                            vt = self.const(lb["v"], w2, fr)
                            c = self.eqterm(ct, vt)
                            if c is TRUE or w2.fact(c) is True:
                                known = n
                            elif c is FALSE or w2.fact(c) is False:
                                pass
                            else:
                                entries.append((n, c))
                            taken.append(c)
                starts = []
                if known is not None:
                    starts.append((known, w2))
                else:
                    for n, c in entries:
                        w3 = w2.copy()
                        w3.facts = w3.facts | {(c, True)} | {(c2, False) for _, c2 in entries if c2 is not c}
                        starts.append((n, w3))
                    w3 = w2.copy()
                    w3.facts = w3.facts | {(c, False) for _, c in entries}
                    if hasdef is not None:
                        starts.append((hasdef, w3))
                    elif not s.get("alle"):
                        fall.append(w3)
                    elif True:
                        # all enumerators covered: other values are outside the type
                        pass
                byn = {}
                for n, w3 in starts:
                    byn.setdefault(n, []).append(w3)
                cur = []
                for n, (labels, st) in enumerate(flat):
                    cur = cur + byn.get(n, [])
                    nxt = []
                    for w3 in cur:
                        r = self.exec(st, w3, fr)
                        nxt += r.pop("fall", [])
                        fall += r.pop("break", [])
                        self.add(acc, r)
                    cur = nxt
                fall += cur
        if fall:
            acc["fall"] = acc.get("fall", []) + self.merge(fall)
        return acc

    def x_case(self, s, w, fr):
        return self.exec(s["s"], w, fr)

    x_default = x_case
    x_label = x_case

    def x_goto(self, s, w, fr):
        raise TooBig("goto in " + fr.fn["q"])

    def x_try(self, s, w, fr):
        self.tstack.append([])
        acc = self.exec(s["b"], w, fr)
        th = self.tstack.pop()
        catchall = any(h["t"] == "..." for h in s["h"])
        for w1 in self.merge(th):
            for h in s["h"]:
                w2 = w1.copy()
                if h.get("v"):
                    w2.store[mk("v", fr.depth, h["v"]["id"], h["v"]["n"])] = S(mk("exc", h["t"]))
                for w3 in self.emit(w2, fr, h, "catch", t=h["t"]):
                    r = self.exec(h["b"], w3, fr)
                    self.add(acc, r)
                if h["t"] == "...":
                    break
            if not catchall:
                self.tstack[-1].append(w1)
        for k in list(acc):
            acc[k] = self.merge(acc[k])
        return acc

    def x_omp(self, s, w, fr):
        acc = {}
        for w1 in self.emit(w, fr, s, "omp", d=s["d"], name=s.get("name", ""), node=s):
            d = s["d"]
            if s.get("b") is None:
                self.add(acc, {"fall": [w1]})
                continue
            r = self.exec(s["b"], w1, fr)
            for k in r:
                r[k] = [x for w2 in r[k] for x in self.emit(w2, fr, s, "endomp", d=d, name=s.get("name", ""), node=s)]
            self.add(acc, r)
        return acc

    def x_other(self, s, w, fr):
        ws = [w]
        acc = {}
        for c in s.get("s", []):
            nx = []
            for w1 in ws:
                r = self.exec(c, w1, fr)
                nx += r.pop("fall", [])
                self.add(acc, r)
            ws = nx
        acc["fall"] = acc.get("fall", []) + ws
        return acc

    # ---- conditions
    def const(self, e, w, fr):
        r = self.rv(e, w, fr)
        v = r[0][1]
        return next(iter(v)) if len(v) == 1 else mk("top", "const")

    def eqterm(self, a, b):
        if a is b:
            return TRUE
        if a.op == "lit" and b.op == "lit":
            return FALSE
        if b is NULL or a is NULL:
            x = a if b is NULL else b
            return self.nullterm(x)
        if b.i < a.i:
            a, b = b, a
        return mk("eq", a, b)

    def nullterm(self, x):
        if x.op in ("new", "obj", "addr", "clo", "fn", "rec"):
            return FALSE
        if x is NULL:
            return TRUE
        return mk("isnull", x)

    def cond(self, e, w, fr):
        k = e["k"]
        if k == "bin" and e["op"] in ("&&", "||"):
            out = []
            for w1, b in self.cond(e["a"], w, fr):
                if (e["op"] == "&&") == b:
                    out += self.cond(e["b"], w1, fr)
                else:
                    out.append((w1, b))
            return out
        if k == "un" and e["op"] == "!":
            return [(w1, not b) for w1, b in self.cond(e["e"], w, fr)]
        out = []
        for w1, v in self.rv(e, w, fr):
            out += self.branch(w1, v, e, fr)
        return out

    def truth(self, t):
        """(term, positive) condition form of a value used as a condition."""
        pos = True
        while True:
            if t.op == "un" and t.a[0] == "!":
                t, pos = t.a[1], not pos
                continue
            if t.op == "not":
                t, pos = t.a[0], not pos
                continue
            break
        if t.op == "lit":
            v = t.a[0]
            if v == "true" or (isinstance(v, (int, float)) and v != 0):
                return (TRUE, pos)
            if v == "false" or v == 0 or v is None:
                return (TRUE, not pos)
        return (t, pos)

    def branch(self, w, v, e, fr):
        if len(v) == 1:
            t, pos = self.truth(next(iter(v)))
            t, pos = self.as_cond(t, pos, e)
            if t is TRUE:
                return [(w, pos)]
            f = self.known(w, t)
            if f is not None:
                return [(w, f == pos)]
            a, b = w.copy(), w.copy()
            a.facts = a.facts | {(t, pos)}
            b.facts = b.facts | {(t, not pos)}
            return [(a, True), (b, False)]
        # several possible values: keep those consistent with each branch
        ts = [self.truth(t) for t in v]
        if ts and all(t is TRUE for t, _ in ts):
            outs = set(p for _, p in ts)
            return [(w.copy(), b) for b in sorted(outs, reverse=True)]
        return [(w.copy(), True), (w.copy(), False)]

    def known(self, w, t):
        f = w.fact(t)
        if f is not None:
            return f
        if t.op == "isnull":
            x = t.a[0]
            if x.op in ("new", "obj", "addr", "clo", "fn"):
                return False
        if t.op in ("lt", "le"):
            a, b = t.a
            if a.op == "lit" and b.op == "lit" and isinstance(a.a[0], (int, float)) and isinstance(b.a[0], (int, float)):
                return a.a[0] < b.a[0] if t.op == "lt" else a.a[0] <= b.a[0]
            # what the order already known of the two says (no NaN)
            eq = w.fact(mk("eq", a, b))
            if eq is None:
                eq = w.fact(mk("eq", b, a))
            if eq:
                return t.op == "le"
            ab, ba = w.fact(mk("lt", a, b)), w.fact(mk("lt", b, a))
            lab, lba = w.fact(mk("le", a, b)), w.fact(mk("le", b, a))
            if t.op == "lt":
                if ba or lba or lab is False:
                    return False
                if lba is False or eq is False and (lab or ba is False):
                    return True
            else:
                if ab or ba is False or lba is False:
                    return True
                if ba or ab is False and eq is False:
                    return False
        return None

    def as_cond(self, t, pos, e):
        if t.op == "isnull" or t.op in ("eq", "lt", "le", "ext", "call", "m"):
            return t, pos
        ty = str(e.get("t", ""))
        if ty.rstrip().endswith("*") or "shared_ptr" in ty or "std::function" in ty:
            n = self.nullterm(t)
            if n is TRUE:
                return TRUE, not pos
            if n is FALSE:
                return TRUE, pos
            return n, not pos
        return t, pos

    # ---- expressions
    def rv(self, e, w, fr):
        out = []
        for w1, (k, s) in self.ev(e, w, fr):
            out.append((w1, self.read(w1, s) if k == "L" else s))
        return out

    def lv(self, e, w, fr):
        out = []
        for w1, (k, s) in self.ev(e, w, fr):
            if k == "L":
                out.append((w1, s))
                continue
            if any(t.op in ("rec", "clo", "bin", "lit") for t in s) or e["k"] in ("ctor",):
                tmp = mk("v", fr.depth, "tmp%d" % self.uid(e), "tmp")
                w1 = w1.copy()
                self.write1(w1, tmp, s)
                out.append((w1, S(tmp)))
            else:
                out.append((w1, s))
        return out

    def ev(self, e, w, fr):
        self.steps += 1
        if self.steps > self.max_steps:
            raise TooBig("analysis budget exceeded in " + (fr.fn or {}).get("q", "?"))
        if e is None:
            return [(w, ("V", S(mk("void"))))]
        f = getattr(self, "e_" + e["k"], None)
        if f is None:
            return self.e_unk(e, w, fr)
        r = f(e, w, fr)
        if e.get("ict") and e["k"] in ("lit",):
            pass
        return r

    def V(self, w, *t):
        return [(w, ("V", S(*t)))]

    def e_lit(self, e, w, fr):
        v = e.get("v")
        if v == "inf":
            return self.V(w, INF)
        if e.get("null"):
            return self.V(w, NULL)
        if isinstance(v, bool):
            return self.V(w, TRUE if v else FALSE)
        if e.get("str"):
            return self.V(w, mk("str", v))
        if isinstance(v, float) and v.is_integer() and abs(v) < 1e15:
            v = int(v)
        return self.V(w, mk("lit", v))

    def e_this(self, e, w, fr):
        return [(w, ("V", fr.this or S(mk("obj", "?"))))]

    def e_ref(self, e, w, fr):
        dk = e["dk"]
        if dk == "func":
            return self.V(w, mk("fn", e["d"]))
        if dk == "enum":
            return self.V(w, mk("lit", e["v"]))
        r = w.store.get(mk("r", fr.depth, e["d"]))
        if r is not None:
            ws = self.emit(w, fr, e, "read", locs=r)
            return [(x, ("L", r)) for x in ws]
        if dk == "gvar":
            if "cv" in e:
                v = e["cv"]
                if isinstance(v, float) and v.is_integer():
                    v = int(v)
                return self.V(w, mk("lit", v))
            loc = S(mk("g", e.get("q") or e["n"]))
        else:
            loc = S(mk("v", fr.depth, e["d"], e["n"]))
        ws = self.emit(w, fr, e, "read", locs=loc)
        return [(x, ("L", loc)) for x in ws]

    def deref(self, w, t):
        return t.a[0] if t.op == "addr" else t

    def mem_locs(self, w, bases, name, arrow, e):
        out = set()
        for t in bases:
            t = self.deref(w, t) if arrow else t
            if t.op == "iter":
                cont, key, kind = t.a
                if kind == "map" and name == "second":
                    out.add(mk("idx", cont, key))
                    continue
                if kind == "map" and name == "first":
                    out.add(mk("key", cont, key))
                    continue
                t = mk("idx", cont, key)
            rr = w.store.get(mk("rr", t, name))
            if rr:
                out |= rr
                continue
            out.add(mk("f", t, name))
        return frozenset(out)

    def e_mem(self, e, w, fr):
        out = []
        if e.get("arrow"):
            for w1, v in self.rv(e["b"], w, fr):
                ws = [w1]
                if e["b"]["k"] != "this":
                    ws = self.emit(w1, fr, e, "deref", ptr=v, expr=e["b"])
                # smart pointers: operator-> already gave the pointee
                for w2 in ws:
                    pts = set()
                    for t in v:
                        if t.op in ("f", "idx", "v") and t in w2.store and False:
                            pts |= w2.store[t]
                        else:
                            pts.add(t)
                    locs = self.mem_locs(w2, pts, e["n"], True, e)
                    for w3 in self.emit(w2, fr, e, "read", locs=locs):
                        out.append((w3, ("L", locs)))
        else:
            for w1, (k, b) in self.ev(e["b"], w, fr):
                if k == "V":
                    vals = set()
                    for t in b:
                        vals |= self.fieldof(w1, t, e["n"])
                    locs = frozenset(mk("f", t, e["n"]) for t in b)
                    for w2 in self.emit(w1, fr, e, "read", locs=locs):
                        out.append((w2, ("V", frozenset(vals))))
                    continue
                locs = self.mem_locs(w1, b, e["n"], False, e)
                # object assigned as a whole from another object: look through
                for w2 in self.emit(w1, fr, e, "read", locs=locs):
                    out.append((w2, ("L", locs)))
        return out

    def e_idx(self, e, w, fr):
        out = []
        for w1, b in self.rv(e["a"], w, fr):
            for w2, i in self.rv(e["i"], w1, fr):
                locs = frozenset(mk("idx", self.deref(w2, t), k) for t in b for k in i)
                for w3 in self.emit(w2, fr, e, "deref", ptr=b, expr=e["a"], index=i):
                    for w4 in self.emit(w3, fr, e, "read", locs=locs):
                        out.append((w4, ("L", locs)))
        return out

    def e_un(self, e, w, fr):
        op = e["op"]
        out = []
        if op == "&":
            if e["e"]["k"] == "ref" and e["e"].get("dk") == "func":
                return self.ev(e["e"], w, fr)
            for w1, l in self.lv(e["e"], w, fr):
                out.append((w1, ("V", frozenset(mk("addr", x) for x in l))))
            return out
        if op == "*":
            for w1, v in self.rv(e["e"], w, fr):
                ws = [w1]
                if e["e"]["k"] != "this":
                    ws = self.emit(w1, fr, e, "deref", ptr=v, expr=e["e"])
                for w2 in ws:
                    locs = frozenset(self.deref(w2, t) for t in v)
                    out.append((w2, ("L", locs)))
            return out
        if op in ("++", "--"):
            for w1, l in self.lv(e["e"], w, fr):
                old = self.read(w1, l)
                new = frozenset(t if t.op == "iter" else self.arith("+" if op == "++" else "-", t, mk("lit", 1)) for t in old)
                w1 = w1.copy()
                for w2 in self.write(w1, fr, e, l, new):
                    out.append((w2, ("V", old) if e.get("post") else ("L", l)))
            return out
        for w1, v in self.rv(e["e"], w, fr):
            if op == "!":
                r = frozenset(self.neg(t, e["e"]) for t in v)
            elif op == "-":
                r = frozenset(self.arith("-", mk("lit", 0), t) if t.op == "lit" and isinstance(t.a[0], (int, float)) else mk("un", "-", t) for t in v)
            elif op in ("+", "__extension__"):
                r = v
            else:
                r = frozenset(mk("un", op, t) for t in v)
            out.append((w1, ("V", r)))
        return out

    def neg(self, t, e):
        t, pos = self.truth(t)
        t, pos = self.as_cond(t, pos, e)
        if t is TRUE:
            return FALSE if pos else TRUE
        return mk("un", "!", t) if pos else t

    def arith(self, op, a, b):
        if a.op == "lit" and b.op == "lit" and isinstance(a.a[0], (int, float)) and isinstance(b.a[0], (int, float)) \
                and not isinstance(a.a[0], bool) and not isinstance(b.a[0], bool):
            try:
                x, y = a.a[0], b.a[0]
                if op == "+":
                    return mk("lit", x + y)
                if op == "-":
                    return mk("lit", x - y)
                if op == "*":
                    return mk("lit", x * y)
                if op == "idiv" and y != 0:
                    return mk("lit", int(x / y))
            except Exception:
                pass
        if op in ("==", "!="):
            t = self.eqterm(a, b)
            if op == "==":
                return t
            return FALSE if t is TRUE else TRUE if t is FALSE else mk("un", "!", t)
        if op == "<":
            return mk("lt", a, b)
        if op == ">":
            return mk("lt", b, a)
        if op == "<=":
            return mk("le", a, b)
        if op == ">=":
            return mk("le", b, a)
        if a.size + b.size > 4000:
            return mk("top", "big")
        return mk("bin", op, a, b)

    def e_bin(self, e, w, fr):
        op = e["op"]
        if op == ",":
            out = []
            for w1, _ in self.ev(e["a"], w, fr):
                out += self.ev(e["b"], w1, fr)
            return out
        if op in ("&&", "||"):
            res = self.cond(e, w, fr)
            if self.c.merge == "paths":
                return [(w1, ("V", S(TRUE if b else FALSE))) for w1, b in res]
            # value of the condition: keep it linked to the branch facts
            out = []
            for w1, b in res:
                out.append((w1, ("V", S(TRUE if b else FALSE))))
            return out
        out = []
        for w1, a in self.rv(e["a"], w, fr):
            for w2, b in self.rv(e["b"], w1, fr):
                if len(a) * len(b) > 16:
                    r = S(mk("top", "bin%d" % self.uid(e)))
                else:
                    r = frozenset(self.arith("idiv" if e.get("it") else op, x, y) for x in a for y in b)
                if e.get("fl") and a == b and len(a) == 1 and next(iter(a)).op != "lit" and same_expr(e["a"], e["b"]):
                    # only NaN differs from itself
                    r = mk("ext", "isnan", next(iter(a)))
                    r = S(r if op == "!=" else mk("un", "!", r))
                for w3 in self.emit(w2, fr, e, "arith", op=op, a=a, b=b, val=r, node=e):
                    out.append((w3, ("V", r)))
        return out

    def e_assign(self, e, w, fr):
        op = e["op"]
        out = []
        for w1, r in self.rv(e["b"], w, fr):
            for w2, l in self.lv(e["a"], w1, fr):
                w2 = w2.copy()
                if op != "=":
                    old = self.read(w2, l)
                    if len(old) * len(r) > 16:
                        v = S(mk("top", "bin%d" % self.uid(e)))
                    else:
                        v = frozenset(self.arith("idiv" if e.get("it") else op[:-1], x, y) for x in old for y in r)
                    ws = self.emit(w2, fr, e, "arith", op=op[:-1], a=old, b=r, val=v, node=e)
                else:
                    v = r
                    ws = [w2]
                for w3 in ws:
                    for w4 in self.write(w3, fr, e, l, v):
                        out.append((w4, ("L", l)))
        return out

    def e_cond(self, e, w, fr):
        out = []
        for w1, b in self.cond(e["c"], w, fr):
            for w2, v in self.ev(e["a"] if b else e["b"], w1, fr):
                out.append((w2, v))
        if self.c.merge == "esp" and len(out) > 1:
            # merge worlds with equal client state, union of values
            g = {}
            for w1, (k, v) in out:
                g.setdefault((w1.dom, k), []).append((w1, v))
            res = []
            for (dom, k), lst in g.items():
                if len(lst) == 1:
                    res.append((lst[0][0], (k, lst[0][1])))
                else:
                    vs = frozenset().union(*[v for _, v in lst])
                    res.append((self.join([x for x, _ in lst]), (k, vs)))
            out = res
        return out

    def e_cast(self, e, w, fr):
        out = []
        for w1, v in self.rv(e["e"], w, fr):
            if e["ck"] == "FloatingToIntegral":
                v = frozenset(mk("trunc", t) for t in v)
            out.append((w1, ("V", v)))
        return out

    def e_lambda(self, e, w, fr):
        res = [(w, [])]
        for c in e["caps"]:
            nr = []
            for w1, acc in res:
                if c["k"] == "this":
                    nr.append((w1, acc + [("this", "this", fr.this or frozenset(), "this")]))
                elif c["k"] == "starthis":
                    nr.append((w1, acc + [("this", "this", fr.this or frozenset(), "this")]))
                elif c["k"] == "ref":
                    ce = c.get("e")
                    r = w1.store.get(mk("r", fr.depth, c["d"])) or S(mk("v", fr.depth, c["d"], c["n"]))
                    nr.append((w1, acc + [(c["d"], "ref", r, c["n"])]))
                else:
                    ce = c.get("e")
                    if ce is not None:
                        for w2, v in self.rv(ce, w1, fr):
                            nr.append((w2, acc + [(c["d"], "copy", v, c["n"])]))
                    else:
                        l = w1.store.get(mk("r", fr.depth, c["d"])) or S(mk("v", fr.depth, c["d"], c["n"]))
                        nr.append((w1, acc + [(c["d"], "copy", self.read(w1, l), c["n"])]))
            res = nr
        out = []
        for w1, caps in res:
            t = mk("clo", e["f"], tuple(caps))
            for w2 in self.emit(w1, fr, e, "lambda", clo=t, node=e):
                out.append((w2, ("V", S(t))))
        return out

    def e_new(self, e, w, fr):
        t = mk("new", "%s:%s:%d" % (fr.file, e.get("l"), self.uid(e)), e.get("rec") or e.get("at"))
        ws = [w]
        if e.get("e"):
            ws = self.construct(w, fr, e["e"], S(t))
        out = []
        for w1 in ws:
            for w2 in self.emit(w1, fr, e, "new", obj=t):
                out.append((w2, ("V", S(t))))
        return out

    def e_delete(self, e, w, fr):
        out = []
        for w1, v in self.rv(e["e"], w, fr):
            for w2 in self.emit(w1, fr, e, "delete", ptr=v):
                out.append((w2, ("V", S(mk("void")))))
        return out

    def e_throw(self, e, w, fr):
        ws = [w]
        if e.get("e"):
            ws = [x for x, _ in self.ev(e["e"], w, fr)]
        for w1 in ws:
            for w2 in self.emit(w1, fr, e, "throw", t=e.get("tt")):
                self.tstack[-1].append(w2)
        return []

    def e_init(self, e, w, fr):
        res = [(w, [])]
        fields = e.get("fields")
        for i, a in enumerate(e.get("a", [])):
            nr = []
            for w1, acc in res:
                for w2, v in self.rv(a, w1, fr):
                    key = fields[i] if fields and i < len(fields) else mk("lit", i)
                    nr.append((w2, acc + [(key, v)]))
            res = nr
        return [(w1, ("V", S(mk("rec", tuple(acc), "init")))) for w1, acc in res]

    def e_memfn(self, e, w, fr):
        return self.V(w, mk("memfn", e["n"]))

    def e_unk(self, e, w, fr):
        ws = [w]
        vals = []
        for a in e.get("a", []) or []:
            nw = []
            for w1 in ws:
                nw += [x for x, _ in self.ev(a, w1, fr)]
            ws = nw
        return [(w1, ("V", S(mk("top", "%s%d" % (e.get("cls", e["k"]), self.uid(e)))))) for w1 in ws]

    # ---- construction as a value
    def e_ctor(self, e, w, fr):
        cls = e.get("cls", "")
        if e.get("copy") and e.get("a"):
            out = []
            for w1, v in self.rv(e["a"][0], w, fr):
                for w2 in self.emit(w1, fr, e, "copy", cls=cls, val=v, src=e["a"][0]):
                    out.append((w2, ("V", v)))
            return out
        if self.is_repo_ctor(e):
            tmp = mk("v", fr.depth, "tmp%d" % self.uid(e), "tmp")
            w = w.copy()
            self.clear_under(w, tmp)
            w.store.pop(tmp, None)
            out = []
            for w1 in self.construct(w, fr, e, S(tmp)):
                out.append((w1, ("V", self.read1(w1, tmp))))
            return out
        tm = e.get("tmpl", "")
        if tm in ("std::function",) or tm in SMART:
            if not e.get("a"):
                return self.V(w, NULL)
            return [(w1, ("V", v)) for w1, v in self.rv(e["a"][0], w, fr)]
        if tm == "std::pair" and len(e.get("a", [])) == 2:
            out = []
            for w1, a in self.rv(e["a"][0], w, fr):
                for w2, b in self.rv(e["a"][1], w1, fr):
                    out.append((w2, ("V", S(mk("rec", (("first", a), ("second", b)), "pair")))))
            return out
        if tm in SEQS or tm in MAPS:
            return self.cont_ctor(e, w, fr, tm)
        res = [(w, [])]
        for a in e.get("a", []):
            res = [(w2, acc + [v]) for w1, acc in res for w2, v in self.rv(a, w1, fr)]
        out = []
        for w1, acc in res:
            if e.get("inrepo"):
                for w2 in self.emit(w1, fr, e, "construct", cls=cls, locs=frozenset(), args=[("V", v) for v in acc]):
                    out.append((w2, ("V", S(mk("rec", (), "default:" + cls)) if not acc else S(mk("ext", cls, *acc)))))
            else:
                if len(acc) == 1 and len(acc[0]) == 1 and tm in ("std::basic_string", "std::allocator"):
                    out.append((w1, ("V", acc[0])))
                else:
                    out.append((w1, ("V", S(mk("ext", cls, *acc)))))
        return out

    def cont_ctor(self, e, w, fr, tm):
        args = e.get("a", [])
        if not args:
            return self.V(w, mk("rec", (), "cont%d" % self.uid(e)))
        if args[0]["k"] == "init":
            return [(w1, ("V", v)) for w1, v in self.rv(args[0], w, fr)]
        res = [(w, [])]
        for a in args:
            res = [(w2, acc + [v]) for w1, acc in res for w2, v in self.rv(a, w1, fr)]
        out = []
        for w1, acc in res:
            its = [t for v in acc for t in v if t.op == "iter"]
            if its:
                out.append((w1, ("V", S(mk("rec", ((STAR, self.read1(w1, mk("idx", its[0].a[0], STAR))),), "cont%d" % self.uid(e))))))
            else:
                fill = acc[1] if len(acc) > 1 and not e["pt"][1:2] == ["const std::allocator<double> &"] else S(mk("dflt"))
                n = acc[0]
                out.append((w1, ("V", S(mk("rec", ((STAR, S(mk("dflt"))),), mk("sized", n))))))
        return out

    # ---- calls
    def e_call(self, e, w, fr):
        q = e.get("q", "")
        n = e.get("n", "")
        if "fe" in e:
            out = []
            for w1, fv in self.rv(e["fe"], w, fr):
                for w2, argv in self.eval_args(e, None, w1, fr):
                    out += self.invoke(e, w2, fr, fv, argv)
            return out
        fn = self.p.funcs.get(e.get("f"))
        if n.startswith("__builtin_"):
            return self.ext_call(e, w, fr)
        if e.get("inrepo") and n == "operator=" and "o" in e and len(e.get("a", [])) == 1 and fn and ("body" not in fn or fn.get("defaulted")):
            return self.assign_std(e, w, fr)
        if fn is not None and fn.get("islambda") and "o" in e:
            # a local function object: called with what it captured
            out = []
            for w1, v in self.rv(e["o"], w, fr):
                if not v or any(self.deref(w1, t).op != "clo" for t in v):
                    out = None
                    break
                for w2, argv in self.eval_args(e, fn, w1, fr):
                    out += self.invoke(e, w2, fr, v, argv)
            if out is not None:
                return out
        if e.get("inrepo"):
            return self.repo_call(e, w, fr, fn)
        m = self.std_call(e, w, fr)
        if m is not None:
            return m
        return self.ext_call(e, w, fr)

    def invoke(self, e, w, fr, fv, argv):
        """Call through a function value."""
        out = []
        for t in sorted(fv):
            w1 = w.copy()
            out += self.invoke1(e, w1, fr, t, argv)
        return self.merge_vals(out)

    def merge_vals(self, out):
        if len(out) <= 1 or (self.c.merge == "paths" and len(out) <= self.c.max_worlds):
            return out
        g = {}
        for w, (k, v) in out:
            g.setdefault((w.dom, k), []).append((w, v))
        res = []
        for (dom, k), lst in g.items():
            if len(lst) == 1:
                res.append((lst[0][0], (k, lst[0][1])))
            else:
                u = frozenset().union(*[v for _, v in lst])
                if len(u) > 10:
                    u = S(mk("top", "merge"))
                res.append((self.join([x for x, _ in lst]), (k, u)))
        return res

    def vals_of(self, w, argv):
        return [self.read(w, s) if k == "L" else s for k, s in argv]

    def invoke1(self, e, w, fr, t, argv):
        t = self.deref(w, t)
        if t.op == "clo":
            f = self.p.funcs.get(t.a[0])
            if f and not any(i == f["id"] and th == t for (i, th) in fr.stack):
                this = None
                caps = []
                for d, k, v, nm in t.a[1]:
                    if d == "this":
                        this = v
                    else:
                        caps.append((d, k, v, nm))
                if sum(1 for (i, _) in fr.stack if i == f["id"]) < 3:
                    outs = []
                    for w1 in self.emit(w, fr, e, "invoke", clo=t, args=argv):
                        for w2 in self.inline(w1, fr, f, this, argv, e, caps=caps):
                            r = w2.ret
                            w2.ret = None
                            outs.append((w2, ("V", r if r is not None else S(mk("void")))))
                    return outs
            return self.recursion(e, w, fr, t, argv)
        if t.op == "fn":
            f = self.p.funcs.get(t.a[0])
            if f and "body" in f and not self.in_stack(fr, f, None):
                outs = []
                for w2 in self.inline(w, fr, f, None, argv, e):
                    r = w2.ret
                    w2.ret = None
                    outs.append((w2, ("V", r if r is not None else S(mk("void")))))
                return outs
        vals = self.vals_of(w, argv)
        res = mk("icall", t, *vals)
        outs = []
        for w1 in self.emit(w, fr, e, "icall", fn=t, args=vals, val=res):
            if self.c.drop_on_lock:
                self.havoc_volatile(w1)
            if self.c.throws and self.c.icall_throws(e, t):
                self.tstack[-1].append(w1.copy())
            outs.append((w1, ("V", S(res))))
        return outs

    def recursion(self, e, w, fr, t, argv):
        outs = []
        for w1 in self.emit(w, fr, e, "recursion", fn=t, args=argv):
            outs.append((w1, ("V", S(mk("icall", t, *self.vals_of(w1, argv))))))
        return outs

    def havoc_volatile(self, w):
        w.facts = frozenset((t, b) for t, b in w.facts if not t.vol)
        if self.c.drop_on_lock == "store":
            for l in [l for l in w.store if isinstance(l, T) and l.op in ("f", "idx", "g") and root(l).op in ("obj", "g")]:
                w.store.pop(l)

    def targets(self, e, fn, objs):
        """Possible definitions for a (virtual) call."""
        if not e.get("virt") or e.get("qual"):
            return [fn] if fn else []
        cands = []
        exact = [t for t in objs if t.op in ("obj", "new")]
        ids = [e["f"]]
        i = 0
        while i < len(ids):
            ids += [x for x in self.p.overriders.get(ids[i], []) if x not in ids]
            i += 1
        allf = [self.p.funcs[x] for x in ids if x in self.p.funcs and "body" in self.p.funcs[x]]
        if exact and len(exact) == len(objs):
            out = []
            for t in exact:
                cls = t.a[0] if t.op == "obj" else t.a[1]
                chain = [cls] + self.p.bases(cls)
                for c in chain:
                    m = [f for f in allf if f.get("rec") == c]
                    if m:
                        if m[0] not in out:
                            out.append(m[0])
                        break
            if out:
                return out
        return allf

    def repo_call(self, e, w, fr, fn):
        out = []
        objs_w = [(w, None)]
        if "o" in e:
            if e.get("arrow"):
                objs_w = []
                for w1, v in self.rv(e["o"], w, fr):
                    ws = [w1]
                    if e["o"]["k"] != "this":
                        ws = self.emit(w1, fr, e, "deref", ptr=v, expr=e["o"])
                    for w2 in ws:
                        objs_w.append((w2, frozenset(self.deref(w2, t) if t.op != "iter" else mk("idx", t.a[0], t.a[1]) for t in v)))
            else:
                objs_w = [(w1, frozenset(mk("idx", t.a[0], t.a[1]) if t.op == "iter" else t for t in l)) for w1, l in self.lv(e["o"], w, fr)]
        for w1, objs in objs_w:
            for w2, argv in self.eval_args(e, fn, w1, fr):
                out += self.repo_call2(e, w2, fr, fn, objs, argv)
        return self.merge_vals(out)

    def repo_call2(self, e, w, fr, fn, objs, argv):
        pol = self.c.policy(e, fn, objs)
        if pol == "inline":
            if not self.c.inline_integration and e.get("q") == "SLAT::Integration::MAQ":
                return self.integrate(e, w, fr, argv)
            if objs is not None:
                # look through object slots that hold another object
                pass
            tg = self.targets(e, fn, objs or frozenset())
            tg = [f for f in tg if f and ("body" in f or f.get("inits"))]
            outs = []
            done = False
            for f in tg:
                if self.in_stack(fr, f, objs):
                    continue
                done = True
                w0 = w.copy() if len(tg) > 1 else w
                for w1 in self.emit(w0, fr, e, "call", fn=f, objs=objs, args=argv):
                    for w2 in self.inline(w1, fr, f, objs, argv, e):
                        r = w2.ret
                        w2.ret = None
                        k = "L" if f.get("ret", "").rstrip().endswith("&") else "V"
                        outs.append((w2, (k, r if r is not None else S(mk("void")))))
            if done:
                return outs
            if tg:
                return self.recursion(e, w, fr, mk("fn", tg[0]["id"]), argv)
        return self.opaque(e, w, fr, fn, objs, argv)

    def opaque(self, e, w, fr, fn, objs, argv):
        vals = self.vals_of(w, argv)
        outs = []
        t = self.c.opaque_term(e, fn, objs, argv)
        if t is None:
            ov = frozenset().union(*[self.read1(w, o) for o in objs]) if objs else None
            t = S(mk("m", e.get("q", e.get("n")), *( [ov] if ov is not None else [] ), *vals))
        for w1 in self.emit(w, fr, e, "opaque", fn=fn, q=e.get("q"), n=e.get("n"), objs=objs, args=argv, vals=vals, val=t):
            if self.c.throws and self.c.maythrow(e):
                self.tstack[-1].append(w1.copy())
            outs.append((w1, ("V", t)))
        return outs

    def integrate(self, e, w, fr, argv):
        """The adaptive quadrature as an intrinsic: its integrand is analysed
        once on a symbolic point; the result has the public result fields."""
        site = "%s:%s" % (fr.file, e.get("l"))
        f = argv[0]
        fv = self.read(w, f[1]) if f[0] == "L" else f[1]
        out = []
        for w0 in self.emit(w, fr, e, "integrate", site=site, integrand=fv):
            for w1, (_, v) in self.invoke(e, w0, fr, fv, [("V", S(mk("ivar", site)))]):
                rec = mk("rec", (("integral", S(mk("integral", site, v))), ("successful", S(mk("isuccess", site))),
                                 ("evaluations", S(mk("ievals", site)))), "maq")
                for w2 in self.emit(w1, fr, e, "integrated", site=site, body=v):
                    out.append((w2, ("V", S(rec))))
        return out

    # ---- the standard library, as far as its shape matters here
    def std_call(self, e, w, fr):
        n, q, tm = e.get("n", ""), e.get("q", ""), e.get("tmpl", "")
        a = e.get("a", [])
        if tm in SMART or (not tm and ("shared_ptr" in q and n in ("operator==", "operator!="))):
            if n in ("operator->", "get", "lock"):
                return [(w1, ("V", v)) for w1, v in self.rv(e["o"], w, fr)]
            if n == "operator*":
                out = []
                for w1, v in self.rv(e["o"], w, fr):
                    for w2 in self.emit(w1, fr, e, "deref", ptr=v, expr=e["o"]):
                        out.append((w2, ("L", frozenset(self.deref(w2, t) for t in v))))
                return out
            if n.startswith("operator bool"):
                out = []
                for w1, v in self.rv(e["o"], w, fr):
                    out.append((w1, ("V", frozenset(self.notnull(t) for t in v))))
                return out
            if n == "operator=":
                return self.assign_std(e, w, fr)
            if n == "reset":
                out = []
                for w1, l in self.lv(e["o"], w, fr):
                    for w2, v in (self.rv(a[0], w1, fr) if a else [(w1, S(NULL))]):
                        w2 = w2.copy()
                        for w3 in self.write(w2, fr, e, l, v):
                            out.append((w3, ("V", S(mk("void")))))
                return out
            if n == "swap":
                return self.swap(e, w, fr, e["o"], a[0])
            if n == "use_count" or n == "unique":
                return [(w1, ("V", S(mk("ext", n, v)))) for w1, v in self.rv(e["o"], w, fr)]
        if n in ("operator==", "operator!=") and len(a) + ("o" in e) == 2 and "shared_ptr" in q + str(e.get("pt")):
            xs = ([e["o"]] if "o" in e else []) + a
            return self.e_bin({"k": "bin", "op": n[8:], "a": xs[0], "b": xs[1], "l": e.get("l"), "t": "bool"}, w, fr)
        if tm == "std::function":
            if n == "operator()":
                out = []
                for w1, v in self.rv(e["o"], w, fr):
                    for w2, argv in self.eval_args(e, None, w1, fr):
                        out += self.invoke(e, w2, fr, v, argv)
                return out
            if n == "operator=":
                return self.assign_std(e, w, fr)
            if n.startswith("operator bool"):
                return [(w1, ("V", frozenset(self.notnull(t) for t in v))) for w1, v in self.rv(e["o"], w, fr)]
        if n == "operator()" and "o" in e:
            # functor / lambda object
            out = []
            for w1, v in self.rv(e["o"], w, fr):
                if any(t.op == "clo" for t in v):
                    for w2, argv in self.eval_args(e, self.p.funcs.get(e.get("f")), w1, fr):
                        out += self.invoke(e, w2, fr, v, argv)
                else:
                    return None
            return out
        if q.startswith("std::"):
            if n in ("move", "forward", "static_pointer_cast", "dynamic_pointer_cast", "const_pointer_cast", "ref", "cref", "addressof", "as_const") and len(a) == 1:
                if n == "addressof":
                    return [(w1, ("V", frozenset(mk("addr", x) for x in l))) for w1, l in self.lv(a[0], w, fr)]
                return self.ev(a[0], w, fr)
            if n in ("make_shared", "make_unique", "allocate_shared"):
                return self.make_shared(e, w, fr)
            if n in ("make_pair",):
                out = []
                for w1, x in self.rv(a[0], w, fr):
                    for w2, y in self.rv(a[1], w1, fr):
                        out.append((w2, ("V", S(mk("rec", (("first", x), ("second", y)), "pair")))))
                return out
            if n == "swap" and len(a) == 2 and "o" not in e:
                return self.swap(e, w, fr, a[0], a[1])
            if n in ("isnan",):
                return [(w1, ("V", frozenset(mk("ext", "isnan", t) for t in v))) for w1, v in self.rv(a[0], w, fr)]
        if tm in SEQS or tm in MAPS or tm in ITERS or tm == "std::stack" or tm.startswith("std::__detail"):
            m = self.container(e, w, fr, tm)
            if m is not None:
                return m
        if n in ("operator==", "operator!=") and any("iterator" in str(x) for x in e.get("pt", []) + [q]):
            ws = [w]
            for x in ([e["o"]] if "o" in e else []) + a:
                ws = [x1 for w1 in ws for x1, _ in self.rv(x, w1, fr)]
            return [(w1, ("V", S(mk("top", "itcmp%d" % self.uid(e))))) for w1 in ws]
        if n == "operator=" and "o" in e:
            return self.assign_std(e, w, fr)
        if q.startswith("std::") and n in ("for_each", "transform", "find_if", "any_of", "all_of", "none_of", "remove_if", "accumulate", "count_if", "sort", "generate", "copy", "fill", "find", "max", "min"):
            return self.algorithm(e, w, fr, n)
        return None

    def notnull(self, t):
        x = self.nullterm(t)
        return TRUE if x is FALSE else FALSE if x is TRUE else mk("un", "!", x)

    def assign_std(self, e, w, fr):
        out = []
        for w1, v in self.rv(e["a"][0], w, fr):
            for w2, l in self.lv(e["o"], w1, fr):
                w2 = w2.copy()
                for w3 in self.write(w2, fr, e, l, v):
                    for w4 in self.emit(w3, fr, e, "assign", locs=l, vals=v, src=e["a"][0], dst=e["o"]):
                        out.append((w4, ("L", l)))
        return out

    def swap(self, e, w, fr, x, y):
        out = []
        for w1, l1 in self.lv(x, w, fr):
            for w2, l2 in self.lv(y, w1, fr):
                v1, v2 = self.read(w2, l1), self.read(w2, l2)
                w2 = w2.copy()
                for w3 in self.write(w2, fr, e, l1, v2):
                    for w4 in self.write(w3, fr, e, l2, v1):
                        for w5 in self.emit(w4, fr, e, "swap", a=l1, b=l2):
                            out.append((w5, ("V", S(mk("void")))))
        return out

    def make_shared(self, e, w, fr):
        ty = e.get("t", "")
        inner = ty[ty.find("<") + 1: ty.rfind(">")] if "<" in ty else ty
        t = mk("new", "%s:%s:%d" % (fr.file, e.get("l"), self.uid(e)), inner)
        # pick the constructor by argument count and type
        res = [(w, [])]
        for x in e.get("a", []):
            nr = []
            for w1, acc in res:
                for w2, (k, v) in self.ev(x, w1, fr):
                    nr.append((w2, acc + [(k, v)]))
            res = nr
        ctors = [f for f in self.p.methods_of.get(inner, []) if f["k"] == "ctor" and ("body" in f or f.get("inits")) and not f.get("copy") and not f.get("move")]
        nargs = len(e.get("a", []))
        match = [f for f in ctors if len(f["params"]) == nargs]
        cp = nargs == 1 and (str(e["a"][0].get("t", "")).replace("const ", "").rstrip(" &") == inner)
        out = []
        for w1, acc in res:
            w1 = w1.copy()
            if cp:
                vals = self.vals_of(w1, acc)
                for w2 in self.emit(w1, fr, e, "copy", cls=inner, val=vals[0], src=e["a"][0]):
                    self.write1(w2, t, vals[0])
                    out.append((w2, ("V", S(t))))
                continue
            if "std::pair<" in inner[:10] and nargs == 2:
                v = self.vals_of(w1, acc)
                self.write1(w1, mk("f", t, "first"), v[0])
                self.write1(w1, mk("f", t, "second"), v[1])
                for w2 in self.emit(w1, fr, e, "write", locs=S(mk("f", t, "first")), vals=v[0]):
                    for w3 in self.emit(w2, fr, e, "write", locs=S(mk("f", t, "second")), vals=v[1]):
                        out.append((w3, ("V", S(t))))
                continue
            done = False
            for w2 in self.emit(w1, fr, e, "construct", cls=inner, locs=S(t), args=acc):
                if match:
                    f = match[0]
                    ce = dict(e, k="ctor", f=f["id"], cls=inner, inrepo=True)
                    if not self.in_stack(fr, f, S(t)) and self.c.policy(ce, f, S(t)) == "inline":
                        done = True
                        for w3 in self.inline(w2, fr, f, S(t), acc, e):
                            w3.ret = None
                            out.append((w3, ("V", S(t))))
                if not done:
                    out.append((w2, ("V", S(t))))
        return out

    def container(self, e, w, fr, tm):
        n, a = e.get("n", ""), e.get("a", [])
        ismap = tm in MAPS or "map" in str(e.get("cl", ""))[:20] or (tm in ITERS and ("_Rb_tree" in tm or "_Node" in tm) and "pair<const" in str(e.get("cl", "")) + str(e.get("t", "")))
        out = []
        if tm in ITERS:
            if n == "operator->":
                for w1, v in self.rv(e["o"], w, fr):
                    out.append((w1, ("V", v)))
                return out
            if n == "operator*":
                for w1, v in self.rv(e["o"], w, fr):
                    locs = frozenset((t if (t.op == "iter" and t.a[2] == "map") else mk("idx", t.a[0], t.a[1])) if t.op == "iter" else t for t in v)
                    out.append((w1, ("L", locs)))
                return out
            if n in ("operator++", "operator--", "operator+", "operator-", "operator+=", "operator-="):
                for w1, (k, v) in self.ev(e["o"], w, fr):
                    v2 = self.read(w1, v) if k == "L" else v
                    ws = [w1]
                    for x in a:
                        ws = [x1 for w2 in ws for x1, _ in self.ev(x, w2, fr)]
                    for w3 in ws:
                        if n in ("operator+", "operator-") and a:
                            iv = self.rv(a[0], w3, fr)[0][1]
                            v3 = frozenset(mk("iter", t.a[0], next(iter(iv)) if len(iv) == 1 and n == "operator+" else STAR, t.a[2]) if t.op == "iter" else t for t in v2)
                            out.append((w3, ("V", v3)))
                        else:
                            # moving an iterator: any element
                            v3 = frozenset(mk("iter", t.a[0], STAR, t.a[2]) if t.op == "iter" else t for t in v2)
                            if k == "L":
                                for l in v:
                                    self.write1(w3, l, v3)
                            out.append((w3, ("V", v3)))
                return out
            if n == "operator=":
                return self.assign_std(e, w, fr)
            if n in ("operator==", "operator!="):
                ws = [w1 for w1, _ in self.rv(e["o"], w, fr)]
                for x in a:
                    ws = [x1 for w1 in ws for x1, _ in self.rv(x, w1, fr)]
                return [(w1, ("V", S(mk("top", "itcmp%d" % self.uid(e))))) for w1 in ws]
            return None
        if "o" not in e:
            return None
        for w1, l in self.lv(e["o"], w, fr):
            out += self.container2(e, w1, fr, l, n, a, ismap)
        return out

    def container2(self, e, w, fr, l, n, a, ismap):
        kind = "map" if ismap else "seq"
        out = []
        argv = [(w, [])]
        for x in a:
            nr = []
            for w1, acc in argv:
                for w2, (k, v) in self.ev(x, w1, fr):
                    nr.append((w2, acc + [(k, v)]))
            argv = nr
        for w1, acc in argv:
            vals = self.vals_of(w1, acc)
            if n in ("operator[]", "at"):
                locs = frozenset(mk("idx", c, k) for c in l for k in vals[0])
                for w2 in self.emit(w1, fr, e, "index", cont=l, key=vals[0], ismap=ismap, checked=(n == "at")):
                    for w3 in self.emit(w2, fr, e, "read", locs=locs):
                        if n == "at" and self.c.throws and False:
                            self.tstack[-1].append(w3.copy())
                        out.append((w3, ("L", locs)))
            elif n in ("front", "back", "top"):
                locs = frozenset(mk("idx", c, STAR) for c in l)
                if self.c.lists and n != "top" and not ismap:
                    locs = frozenset(mk("idx", c, mk("lit", 0) if n == "front" else self.plus(self.sizeof(w1, c), -1)) for c in l)
                for w2 in self.emit(w1, fr, e, "cquery", n=n, cont=l):
                    out.append((w2, ("L", locs)))
            elif n in ("begin", "end", "cbegin", "cend", "rbegin", "rend"):
                for w2 in self.emit(w1, fr, e, "cquery", n=n, cont=l):
                    out.append((w2, ("V", frozenset(mk("iter", c, STAR, kind) for c in l))))
            elif n in ("find", "lower_bound", "upper_bound"):
                for w2 in self.emit(w1, fr, e, "cquery", n=n, cont=l):
                    out.append((w2, ("V", frozenset(mk("iter", c, k, kind) for c in l for k in vals[0]))))
            elif n in ("count",):
                for w2 in self.emit(w1, fr, e, "cquery", n=n, cont=l):
                    out.append((w2, ("V", frozenset(mk("count", c, k) for c in l for k in vals[0]))))
            elif n in ("size", "empty", "length"):
                for w2 in self.emit(w1, fr, e, "cquery", n=n, cont=l):
                    t = frozenset(self.sizeof(w2, c) for c in l)
                    if n == "empty":
                        t = frozenset(self.eqterm(x, mk("lit", 0)) for x in t)
                    out.append((w2, ("V", t)))
            elif n in ("clear",):
                for c in l:
                    self.clear_under(w1, c)
                    w1.store[c] = S(mk("rec", (), "cleared"))
                for w2 in self.emit(w1, fr, e, "cmod", n=n, cont=l, vals=vals):
                    out.append((w2, ("V", S(mk("void")))))
            elif n in ("push_back", "push", "emplace_back", "push_front", "emplace_front", "insert", "emplace", "assign", "splice", "merge"):
                w1 = w1.copy()
                if ismap and n in ("insert", "emplace") and vals:
                    pv = vals[0]
                    if len(vals) == 2 and n == "emplace":
                        keys, vs = vals
                    else:
                        keys = frozenset().union(*[self.fieldof(w1, t, "first") for t in pv])
                        vs = frozenset().union(*[self.fieldof(w1, t, "second") for t in pv])
                        if any(t.op == "iter" for t in pv):
                            keys, vs = S(STAR), frozenset(mk("idx", t.a[0], STAR) for t in pv if t.op == "iter")
                    for c in l:
                        for k in keys:
                            self.write1(w1, mk("idx", c, k), vs, strong=k is not STAR)
                    for w2 in self.emit(w1, fr, e, "cmod", n=n, cont=l, vals=vals, keys=keys, elem=vs):
                        out.append((w2, ("V", frozenset(mk("iter", c, k, kind) for c in l for k in keys))))
                else:
                    el = vals[-1] if vals else S(mk("dflt"))
                    if n == "insert" and len(vals) == 3:
                        el = frozenset().union(*[self.read1(w1, mk("idx", t.a[0], STAR)) if t.op == "iter" else S(t) for t in vals[1]])
                    if n in ("emplace_back", "emplace", "emplace_front") and len(vals) > 1:
                        el = S(mk("ext", "emplace", *vals))
                    for c in l:
                        self.write1(w1, mk("idx", c, STAR), el, strong=False)
                    for w2 in self.emit(w1, fr, e, "cmod", n=n, cont=l, vals=vals, elem=el):
                        out.append((w2, ("V", frozenset(mk("iter", c, STAR, kind) for c in l))))
            elif n in ("erase", "pop_back", "pop", "pop_front", "remove", "resize", "reserve", "shrink_to_fit", "sort", "reverse", "unique", "swap"):
                if n == "swap":
                    return out + self.swap(e, w1, fr, e["o"], a[0])
                for w2 in self.emit(w1, fr, e, "cmod", n=n, cont=l, vals=vals):
                    out.append((w2, ("V", frozenset(mk("iter", c, STAR, kind) for c in l))))
            elif n == "operator=":
                w1 = w1.copy()
                for w3 in self.write(w1, fr, e, l, vals[0]):
                    for w4 in self.emit(w3, fr, e, "assign", locs=l, vals=vals[0], src=a[0], dst=e["o"]):
                        out.append((w4, ("L", l)))
            elif n == "data":
                out.append((w1, ("V", frozenset(mk("addr", c) for c in l))))
            elif n in ("get_allocator", "max_size", "capacity"):
                out.append((w1, ("V", S(mk("ext", n)))))
            else:
                for w2 in self.emit(w1, fr, e, "cmod", n=n, cont=l, vals=vals):
                    out.append((w2, ("V", S(mk("top", "cont%d" % self.uid(e))))))
        return out

    @staticmethod
    def plus(t, k):
        if t.op == "lit" and isinstance(t.a[0], int):
            return mk("lit", t.a[0] + k)
        return mk("bin", "+", t, mk("lit", k)) if k > 0 else mk("bin", "-", t, mk("lit", -k))

    def sizeof(self, w, c):
        v = w.store.get(c)
        if v is not None and len(v) == 1:
            t = next(iter(v))
            if t.op == "sized" and len(t.a[0]) == 1:
                return next(iter(t.a[0]))
            if t.op in ("param", "f", "v", "idx", "m", "icall") :
                return mk("size", t)
        return mk("size", c)

    def algorithm(self, e, w, fr, n):
        a = e.get("a", [])
        argv = [(w, [])]
        for x in a:
            nr = []
            for w1, acc in argv:
                for w2, (k, v) in self.ev(x, w1, fr):
                    nr.append((w2, acc + [(k, v)]))
            argv = nr
        out = []
        for w1, acc in argv:
            vals = self.vals_of(w1, acc)
            its = [t for v in vals for t in v if t.op == "iter"]
            fns = [t for v in vals for t in v if t.op in ("clo", "fn")]
            src = its[0] if its else None
            w1 = w1.copy()
            if n == "copy" and len(its) >= 2:
                dst = list(vals[-1])[0] if vals[-1] else None
                if dst is not None and dst.op == "iter":
                    v = self.read1(w1, mk("idx", src.a[0], STAR))
                    for w2 in self.write(w1, fr, e, S(mk("idx", dst.a[0], STAR)), v):
                        out.append((w2, ("V", S(dst))))
                    continue
            if fns and src is not None:
                el = ("L", S(src if src.a[2] == "map" else mk("idx", src.a[0], STAR)))
                f = fns[0]
                nparam = len(self.p.funcs.get(f.a[0], {}).get("params", [])) or (0 if n == "generate" else 1)
                av = [el] * nparam
                if n == "accumulate":
                    av = [("V", vals[2]), el]
                site = self.uid(e)
                # loop over the elements
                entry = w1
                heads = [w1.copy()]
                prev = None
                self.mute += 1
                for _ in range(5):
                    self.tstack.append([])
                    bk = [x for h in heads for x, _v in self.invoke1(e, h.copy(), fr, f, av)]
                    self.tstack.pop()
                    nh = self.gen_head([entry], bk, site)
                    sg = self.sigof(nh)
                    if sg == prev:
                        break
                    prev = sg
                    heads = nh
                self.mute -= 1
                res = []
                for h in heads:
                    for x, (k, v) in self.invoke1(e, h.copy(), fr, f, av):
                        res.append((x, v))
                for x, v in res:
                    if n == "transform":
                        dst = [t for t in vals[2] if t.op == "iter"] if len(vals) > 2 else []
                        if dst:
                            x = x.copy()
                            for w2 in self.write(x, fr, e, S(mk("idx", dst[0].a[0], STAR)), v):
                                for w3 in self.emit(w2, fr, e, "transform", src=src, dst=dst[0], val=v, first=vals[0], last=vals[1]):
                                    out.append((w3, ("V", S(dst[0]))))
                            continue
                    if n == "generate":
                        for w2 in self.write(x.copy(), fr, e, S(mk("idx", src.a[0], STAR)), v or S(mk("top", "generated"))):
                            out.append((w2, ("V", S(mk("void")))))
                        continue
                    if n in ("find_if",):
                        out.append((x, ("V", S(src))))
                    elif n in ("any_of", "all_of", "none_of"):
                        out.append((x, ("V", S(mk("top", "alg%d" % site)))))
                    else:
                        out.append((x, ("V", S(mk("ext", n, v)))))
                continue
            if n in ("max", "min") and len(vals) == 2:
                out.append((w1, ("V", S(mk("ext", n, *vals)))))
                continue
            if n == "find" and src is not None:
                out.append((w1, ("V", S(mk("iter", src.a[0], STAR, src.a[2])))))
                continue
            if n in ("fill", "sort", "generate", "remove_if", "transform", "for_each", "copy"):
                for t in {t.a[0] for t in its}:
                    self.write1(w1, mk("idx", t, STAR), vals[2] if n == "fill" and len(vals) > 2 else S(mk("ext", n, *vals)))
            out.append((w1, ("V", S(mk("ext", n, *vals)))))
        return self.merge_vals(out)

    def ext_call(self, e, w, fr):
        n, q = e.get("n", ""), e.get("q", "")
        a = e.get("a", [])
        xs = ([("o", e["o"])] if "o" in e else []) + [("a", x) for x in a]
        res = [(w, [])]
        for kind, x in xs:
            nr = []
            for w1, acc in res:
                for w2, (k, v) in self.ev(x, w1, fr):
                    nr.append((w2, acc + [(k, v)]))
            res = nr
        out = []
        for w1, acc in res:
            vals = self.vals_of(w1, acc)
            if n in ("lock", "unlock") and "mutex" in (e.get("cl") or "") and acc:
                k0, v0 = acc[0]
                nest = "nest_" if "recursive" in e["cl"] else ""
                for w2 in self.emit(w1, fr, e, "lock", op="omp_%s_%slock" % ("set" if n == "lock" else "unset", nest), locs=v0 if k0 == "L" else frozenset(self.deref(w1, t) for t in v0)):
                    if self.c.drop_on_lock and n == "lock":
                        self.havoc_volatile(w2)
                    out.append((w2, ("V", S(mk("void")))))
                continue
            if n in ("lock", "unlock") and "unique_lock" in (e.get("tmpl") or e.get("cl") or "") and acc and acc[0][0] == "L":
                g = acc[0][1]
                locs = frozenset(x for t in g for x in (w1.store.get(mk("dt", t)) or w1.store.get(mk("dtm", t)) or ()))
                if locs:
                    for w2 in self.emit(w1, fr, e, "lock", op="omp_%s_lock" % ("set" if n == "lock" else "unset"), locs=locs):
                        for t in g:
                            if n == "lock":
                                w2.store[mk("dt", t)] = locs
                            else:
                                w2.store.pop(mk("dt", t), None)
                                w2.store[mk("dtm", t)] = locs
                        out.append((w2, ("V", S(mk("void")))))
                    continue
            if n.startswith("omp_") and n.endswith("_lock") or n.endswith("nest_lock"):
                locs = frozenset(self.deref(w1, t) for t in vals[0])
                for w2 in self.emit(w1, fr, e, "lock", op=n, locs=locs):
                    if self.c.drop_on_lock and "set" in n:
                        self.havoc_volatile(w2)
                    out.append((w2, ("V", S(mk("void")))))
                continue
            if n.startswith("gsl_deriv_"):
                out += self.gsl_deriv(e, w1, fr, vals)
                continue
            if n in ("isnan", "__builtin_isnan", "isnanf"):
                out.append((w1, ("V", frozenset(mk("ext", "isnan", t) for t in vals[0]))))
                continue
            if n in ("nan", "nanf", "__builtin_nan", "__builtin_nanf", "quiet_NaN"):
                out.append((w1, ("V", S(NAN))))
                continue
            if n in ("__builtin_inff", "__builtin_huge_val", "__builtin_inf", "infinity"):
                out.append((w1, ("V", S(INF))))
                continue
            # callbacks handed to external code may be invoked by it
            cb = []
            for k, v in acc:
                vv = self.read(w1, v) if k == "L" else v
                for t in vv:
                    if t.op == "clo" or (t.op == "fn" and self.p.funcs.get(t.a[0], {}).get("body")):
                        cb.append(t)
            ws = [w1]
            if cb and not n.startswith("operator"):
                for t in cb:
                    f = self.p.funcs.get(t.a[0], {})
                    av = [("V", S(mk("cbarg", i))) for i in range(len(f.get("params", [])))]
                    ws = [x for w2 in ws for x, _ in self.invoke1(e, w2, fr, t, av)]
            pt = e.get("pt", [])
            off = 1 if "o" in e else 0
            for w2 in ws:
                w2 = w2.copy()
                nm = MATH1.get(n, n)
                if all(len(v) == 1 for v in vals):
                    val = mk("ext", nm, *[next(iter(v)) for v in vals])
                else:
                    val = mk("ext", nm, *vals)
                if val.size > 5000:
                    val = mk("top", "big")
                # out-parameters
                for i, (k, v) in enumerate(acc[off:]):
                    p = pt[i] if i < len(pt) else ""
                    if p.rstrip().endswith("*") and not p.startswith("const "):
                        vv = self.read(w2, v) if k == "L" else v
                        for t in vv:
                            if t.op == "addr" and root(t).op == "v":
                                self.write1(w2, t.a[0], S(mk("out", nm, i, val)))
                if n in WRITING:
                    # elements of the containers iterated over are changed
                    for t in {x.a[0] for v in vals for y in v for x in subterms(y) if x.op == "iter"} | \
                            {x for k, v in acc for x in v if k == "L" and n == "back_inserter"}:
                        if root(t).op in ("v", "f", "obj", "new"):
                            self.write1(w2, mk("idx", t, STAR), S(val))
                evs = self.emit(w2, fr, e, "ext", n=n, q=q, vals=vals, val=val, acc=acc)
                for w3 in evs:
                    if self.c.throws and self.c.maythrow(e):
                        self.tstack[-1].append(w3.copy())
                    rt = str(e.get("ft", "")).split("(")[0].strip()
                    if rt.endswith("&") and n.startswith("operator") and acc:
                        out.append((w3, acc[0]))
                    else:
                        out.append((w3, ("V", S(val))))
        return self.merge_vals(out)

    def gsl_deriv(self, e, w, fr, vals):
        out = []
        F = [self.deref(w, t) for t in vals[0]]
        x = vals[1]
        for f in F:
            fnv = self.read1(w, mk("f", f, "function"))
            prm = self.read1(w, mk("f", f, "params"))
            for w1, (_, v) in self.invoke(e, w.copy(), fr, fnv, [("V", x), ("V", prm)]):
                d = mk("deriv", v, x)
                w1 = w1.copy()
                for t in vals[3]:
                    if t.op == "addr":
                        self.write1(w1, t.a[0], S(d))
                for t in vals[4]:
                    if t.op == "addr":
                        self.write1(w1, t.a[0], S(mk("abserr", v, x)))
                for w2 in self.emit(w1, fr, e, "ext", n=e["n"], q=e["q"], vals=vals, val=d, acc=[]):
                    out.append((w2, ("V", S(mk("ext", "gsl_status", d)))))
        return out
