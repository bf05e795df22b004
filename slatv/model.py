"""The object graph of the library, recovered from the resolved program:
replaceable classes, the slots holding collaborators, the result caches with
what their calculations read, and the subscriptions made by constructors."""
import re
from .interp import Client, Interp, Frame, World, T, mk, S, show, subterms, root, path_fields, NULL, STAR
from .load import AnalysisBroken

REPL = "SLAT::Replaceable<"
CACHE = ("SLAT::Caching::CachedValue<", "SLAT::Caching::CachedFunction<")
VALUE_CLASSES = ("SLAT::LogNormalDist", "SLAT::Context", "SLAT::TempContext")


def is_cache_t(t):
    t = t.replace("const ", "").strip()
    return t.startswith(CACHE)


def this_term(cls):
    return mk("obj", cls)


def first_field(t, this):
    """Name of the field of `this` that the path t starts with, else None."""
    last = None
    while isinstance(t, T) and t.op in ("f", "idx", "addr", "iter", "key", "ov", "size", "count"):
        if t.op == "f":
            last = t.a[1] if t.a[0] == this else last
        t = t.a[0]
    return last if t == this else None


class Model:
    def __init__(self, prog):
        self.p = prog
        self.replaceable = {q for q, r in prog.records.items()
                            if any(b.startswith(REPL) for b in prog.bases(q)) and not q.startswith(REPL)}
        if len(self.replaceable) < 6:
            raise AnalysisBroken("fewer than 6 replaceable classes found: %r" % sorted(self.replaceable))
        self.caches = {}     # class -> {field: type}
        self.slots = {}      # class -> {field: pointee class}
        self.bags = {}       # class -> {container field: pointee class}
        for q, r in prog.records.items():
            if not q.startswith("SLAT::") or q.startswith((REPL,) + CACHE) or r.get("lambda"):
                continue
            cs, sl, bg = {}, {}, {}
            for f in prog.all_fields(q):
                t = f["t"].replace("const ", "").strip()
                if is_cache_t(t):
                    cs[f["name"]] = t
                m = re.match(r"^std::shared_ptr<\s*([\w:]+)\s*>$", t)
                if m and m.group(1) in self.replaceable:
                    sl[f["name"]] = m.group(1)
                elif not m:
                    for x in re.findall(r"std::shared_ptr<\s*([\w:]+)\s*>", self.expand(t)):
                        if x in self.replaceable:
                            bg[f["name"]] = x
            if (q in self.replaceable or cs):
                if cs:
                    self.caches[q] = cs
                if sl:
                    self.slots[q] = sl
                if bg:
                    self.bags[q] = bg
        self.clients = sorted(set(self.caches) | set(self.slots) | set(self.bags))

    def expand(self, t):
        """Resolve the typedef names used for container elements."""
        return t

    def family(self, q):
        """q, its bases and its derived classes (repository classes only)."""
        return {q} | set(self.p.bases(q)) | set(self.p.all_derived(q))

    def has_dependents(self, q):
        """Some class keeps a collaborator of class q (or of a base of q)."""
        up = {q} | set(self.p.bases(q))
        for tab in (self.slots, self.bags):
            for c, fs in tab.items():
                if any(v in up for v in fs.values()):
                    return True
        return False

    def methods(self, cls, public=True):
        """Entry points of class cls (own and inherited) that can be run on
        an object of dynamic class cls."""
        out, seen = [], set()
        for c in [cls] + [b for b in self.p.bases(cls) if not b.startswith(REPL)]:
            rec = self.p.records.get(c)
            if not rec:
                continue
            acc = {m["id"]: m for m in rec["methods"]}
            for f in self.p.methods_of.get(c, []):
                if f["k"] in ("ctor", "dtor") or "body" not in f or f.get("implicit") or f.get("defaulted"):
                    continue
                m = acc.get(f["id"], {})
                if public and m.get("access", 0) != 0:
                    continue
                key = (f["n"] if "n" in f else f["q"].split("::")[-1], tuple(x["t"] for x in f.get("params", [])), f.get("const"))
                if key in seen and (f.get("virtual") or m.get("virtual")):
                    continue
                seen.add(key)
                out.append(f)
        return out

    def ctors(self, cls):
        return [f for f in self.p.methods_of.get(cls, []) if f["k"] == "ctor" and ("body" in f or f.get("inits"))
                and not f.get("implicit") and not f.get("defaulted")
                and not self._copyctor(cls, f)]

    def _copyctor(self, cls, f):
        for m in self.p.records[cls]["methods"]:
            if m["id"] == f["id"]:
                return m.get("copy") or m.get("move")
        return False


def opq(e):
    """Calls the object-graph analyses do not enter."""
    cl = e.get("cl") or e.get("cls") or ""
    if e["k"] == "dtor":
        return True
    if cl.startswith(REPL) and e.get("n") in ("add_callbacks", "remove_callbacks", "notify_change", "replace"):
        return True
    if cl.startswith(CACHE):
        return True
    if cl.startswith(VALUE_CLASSES):
        return True
    return False


class GraphClient(Client):
    """Follows what a method does to its own object; other objects' methods are
    opaque (their effects on this object come back through subscriptions)."""

    def __init__(self, this):
        self.this = this
        self.opaques = 0

    def policy(self, e, fn, obj):
        if opq(e):
            return "opaque"
        if fn is not None and fn.get("islambda"):
            return "inline"
        if obj is None or not obj:
            return "inline"
        if all(root(t) == self.this and (t == self.this) for t in obj):
            return "inline"
        if all(root(t).op == "v" and t == root(t) for t in obj):
            return "inline"          # a local helper object
        return "opaque"

    def opaque_term(self, e, fn, obj, args):
        if e.get("n") == "add_callbacks":
            return S(mk("subid", e.get("l"), frozenset(obj or ())))
        return None


class Reads(GraphClient):
    """Which fields of its own object a calculation reads."""

    def __init__(self, this, caches, slotnames):
        super().__init__(this)
        self.caches, self.slotnames = caches, slotnames
        self.reads = {}       # field -> first site
        self.cachedeps = {}

    def note(self, t, ev):
        f = first_field(t, self.this)
        if f is None:
            return
        if f in self.caches:
            self.cachedeps.setdefault(f, ev.at())
        else:
            self.reads.setdefault(f, ev.at())

    def on(self, w, ev):
        d = ev.d
        if ev.k == "read":
            for t in d["locs"]:
                self.note(t, ev)
        elif ev.k in ("cquery", "index"):
            for t in d["cont"]:
                self.note(t, ev)
        elif ev.k == "opaque":
            if d.get("n") in ("ClearCache", "notify_change"):
                return None
            for t in d["objs"] or ():
                self.note(t, ev)
            for v in d["vals"]:
                for t in v:
                    for x in subterms(t):
                        if x.op in ("f", "idx"):
                            self.note(x, ev)
        elif ev.k in ("ext", "icall"):
            for v in d.get("vals", d.get("args", [])) or []:
                for t in v if isinstance(v, frozenset) else [v]:
                    for x in subterms(t):
                        if x.op in ("f", "idx"):
                            self.note(x, ev)
        elif ev.k == "copy":
            for t in d["val"]:
                for x in subterms(t):
                    if x.op in ("f", "idx"):
                        self.note(x, ev)
        return None


def entry_frame(fn):
    return Frame(fn, 0, None, fn["file"], False, ())


def invoke_closure(I, fn, w, clo, args):
    """Runs a closure as an entry point in world w (fn: where it was made)."""
    fr = entry_frame(fn)
    I.tstack.append([])
    e = {"k": "call", "l": fn["line"], "a": []}
    outs = I.invoke1(e, w.copy(), fr, clo, [("V", a) for a in args])
    th = I.tstack.pop()
    return [(x, "return") for x, _ in outs] + [(x, "throw") for x in th]


class Effects(GraphClient):
    """Effects of running a member (constructor, method or callback) on its
    object.  The automaton state is a set of marks:
      reg(objs, changed, replace, id, file, line, fn)   subscription made
      rem(objs, id)                                     subscription removed
      cache(c, state)    state of a result cache: 'cleared' | 'dirty'
      wrote(field)       a field of the object was assigned
      notified           the object's own clients were told
    """

    def __init__(self, this, rs=None, caches=()):
        super().__init__(this)
        self.rs = rs or {}
        self.caches = caches
        self.cacheclo = {}     # cache field -> set of closures
        self.wsites = {}

    def set(self, w, add=(), drop=()):
        w = w.copy()
        d = w.dom or frozenset()
        w.dom = (d - frozenset(drop)) | frozenset(add)
        return [w]

    def cstate(self, w, c):
        for m in w.dom or ():
            if m.op == "cache" and m.a[0] == c:
                return m
        return None

    def written(self, w, f, ev):
        self.wsites.setdefault(f, ev.at())
        add, drop = [mk("wrote", f)], []
        for c, r in self.rs.items():
            if f in r:
                m = self.cstate(w, c)
                if m is None:
                    add.append(mk("cache", c, "dirty"))
        return self.set(w, add, drop)

    def same(self, w, locs, vals):
        """The assignment is known to store what was already there."""
        if len(locs) != 1 or vals is None or len(vals) != 1:
            return False
        l, v = next(iter(locs)), next(iter(vals))
        if l == v:
            return True
        for t, b in w.facts:
            if b and t.op == "eq" and {t.a[0], t.a[1]} == {l, v}:
                return True
        return False

    def on(self, w, ev):
        d = ev.d
        if ev.k == "construct" and is_cache_t(d.get("cls") or ""):
            for l in d["locs"]:
                if l.op == "f" and l.a[0] == self.this:
                    for k, v in d["args"][:1]:
                        for t in v:
                            if t.op == "clo":
                                self.cacheclo.setdefault(l.a[1], set()).add(t)
        elif ev.k == "opaque":
            n = d.get("n")
            if n == "add_callbacks":
                return self.set(w, [mk("reg", frozenset(d["objs"]), d["vals"][0], d["vals"][1], d["val"], ev.file,
                                       ev.line, ev.fn)])
            if n == "remove_callbacks":
                return self.set(w, [mk("rem", frozenset(d["objs"]), d["vals"][0])])
            if n == "notify_change":
                if d["objs"] == S(self.this):
                    return self.set(w, [mk("notified")])
            if n == "ClearCache" and d["objs"] and len(d["objs"]) == 1:
                t = next(iter(d["objs"]))
                if t.op == "f" and t.a[0] == self.this and t.a[1] in self.caches:
                    m = self.cstate(w, t.a[1])
                    return self.set(w, [mk("cache", t.a[1], "cleared")], [m] if m else [])
            if n == "operator()" and d["objs"]:
                # a calculation may be stored again
                for t in d["objs"]:
                    if t.op == "f" and t.a[0] == self.this and t.a[1] in self.caches:
                        m = self.cstate(w, t.a[1])
                        if m is not None and m.a[1] == "cleared":
                            w = self.set(w, (), [m])[0]
                return [w]
        elif ev.k == "write":
            if self.same(w, d["locs"], d["vals"]):
                return None
            return self.touch(w, d["locs"], ev)
        elif ev.k in ("cmod", "assign", "swap", "transform"):
            if ev.k == "assign" and self.same(w, d["locs"], d.get("vals")):
                return None
            locs = d.get("locs") or d.get("cont") or frozenset()
            if ev.k == "swap":
                locs = frozenset(d["a"]) | frozenset(d["b"])
            if ev.k == "transform":
                locs = S(d["dst"])
            return self.touch(w, locs, ev)
        return None

    def touch(self, w, locs, ev):
        ws = [w]
        for l in locs:
            f = first_field(l, self.this)
            if f is not None and f not in self.caches:
                ws = [y for x in ws for y in self.written(x, f, ev)]
        return ws


def marks(w, op):
    return [m for m in (w.dom or ()) if m.op == op]


class Reg:
    """One subscription: made by `fn`, in force in the world `w` at its end."""
    def __init__(self, fn, w, mark):
        self.fn, self.w = fn, w
        self.objs, self.changed, self.replaced, self.id = mark.a[0], mark.a[1], mark.a[2], mark.a[3]
        self.at = "%s:%s" % (mark.a[4], mark.a[5])


class ClassInfo:
    """Results of analysing one client class."""

    def __init__(self, model, cls):
        self.m, self.cls = model, cls
        self.this = this_term(cls)
        self.ctor_worlds = []      # (ctor fn, world at normal exit)
        self.cacheclo = {}
        self.funcs = set()
        self.clofn = {}            # closure -> ctor
        self.rs = None
        p = model.p
        for c in model.ctors(cls):
            cl = Effects(self.this, None, model.caches.get(cls, {}))
            I = Interp(p, cl)
            for w, o in I.run(c, this=S(self.this), world=World(dom=frozenset())):
                if o == "return":
                    self.ctor_worlds.append((c, w))
            for k, v in cl.cacheclo.items():
                self.cacheclo.setdefault(k, set()).update(v)
                for t in v:
                    self.clofn.setdefault(t, c)
            self.funcs |= I.inlined

    @property
    def caches(self):
        return self.m.caches.get(self.cls, {})

    def value(self, w, field):
        v = w.store.get(mk("f", self.this, field))
        return v if v is not None else S(mk("f", self.this, field))

    def method_runs(self):
        """[(method, client, [(world, outcome)])] for every public method."""
        if not hasattr(self, "_mr"):
            self._mr = []
            rs = self.readsets()
            for f in self.m.methods(self.cls):
                cl = Effects(self.this, rs, self.caches)
                I = Interp(self.m.p, cl)
                outs = I.run(f, this=S(self.this), world=World(dom=frozenset()))
                self.funcs |= I.inlined
                self._mr.append((f, cl, outs))
        return self._mr

    def regs(self):
        """Every subscription made by a constructor or a method."""
        if not hasattr(self, "_regs"):
            self._regs = []
            for c, w in self.ctor_worlds:
                self._regs += [Reg(c, w, m) for m in marks(w, "reg")]
            for f, cl, outs in self.method_runs():
                for w, o in outs:
                    if o == "return":
                        self._regs += [Reg(f, w, m) for m in marks(w, "reg")]
        return self._regs

    def run_callback(self, reg, which):
        """Effects of a subscription's callback: [(world, outcome)], new value."""
        clos = reg.changed if which == "changed" else reg.replaced
        nv = mk("param", "#replacement")
        outs = []
        clients = []
        for clo in clos:
            cl = Effects(self.this, self.readsets(), self.caches)
            I = Interp(self.m.p, cl)
            w = reg.w.copy()
            w.dom = frozenset()
            w.ret = None
            outs += invoke_closure(I, reg.fn, w, clo, [S(nv)] if which == "replaced" else [])
            self.funcs |= I.inlined
            clients.append(cl)
        return outs, nv, clients

    def held(self, reg):
        """Where the object keeps the collaborator subscribed to: locations
        (fields of the object, or of an element of a container field) whose
        content is the subscribed object at the end of the subscribing member."""
        out = set()
        for l, v in reg.w.store.items():
            if l.op not in ("f", "idx") or not isinstance(v, frozenset):
                continue
            r = root(l)
            if r.op in ("param", "g"):
                continue
            if v & reg.objs and (r == self.this or r.op in ("new", "v")):
                if r == self.this or self.reachable(reg.w, r):
                    out.add(l)
        return out

    def reachable(self, w, obj):
        """obj (a heap object or local) is kept by one of this object's fields."""
        seen, st = set(), [obj]
        while st:
            o = st.pop()
            for l, v in w.store.items():
                if isinstance(v, frozenset) and l.op in ("f", "idx") and any(o == x or (x.op == "addr" and x.a[0] == o) for x in v):
                    r = root(l)
                    if r == self.this:
                        return True
                    if r not in seen:
                        seen.add(r)
                        st.append(r)
        return False

    def readsets(self):
        """cache -> {field: site} its calculation depends on (through other
        caches of the object too)."""
        if self.rs is not None:
            return self.rs
        caches = self.m.caches.get(self.cls, {})
        slots = set(self.m.slots.get(self.cls, {})) | set(self.m.bags.get(self.cls, {}))
        direct, deps = {}, {}
        for c in caches:
            direct[c], deps[c] = {}, set()
            for clo in self.cacheclo.get(c, ()):
                cl = Reads(self.this, caches, slots)
                I = Interp(self.m.p, cl)
                ctor = self.clofn[clo]
                f = self.m.p.funcs[clo.a[0]]
                args = [S(mk("param", q["name"] or "x")) for q in f.get("params", [])]
                invoke_closure(I, ctor, World(), clo, args)
                for k, v in cl.reads.items():
                    direct[c].setdefault(k, v)
                deps[c] |= set(cl.cachedeps)
                self.funcs |= I.inlined
        rs = {c: dict(direct[c]) for c in caches}
        ch = True
        while ch:
            ch = False
            for c in caches:
                for d in deps[c]:
                    for k, v in rs.get(d, {}).items():
                        if k not in rs[c]:
                            rs[c][k] = v
                            ch = True
        self.rs, self.cdeps = rs, deps
        return rs

    def queries(self):
        """Fields read by the object's public queries (everything a user can
        observe except its description)."""
        if hasattr(self, "_q"):
            return self._q
        caches = self.m.caches.get(self.cls, {})
        out = {}
        for f in self.m.methods(self.cls):
            n = f["q"].split("::")[-1]
            if n in ("ToString", "to_string") or n.startswith("operator<<"):
                continue
            if f.get("ret") == "void":
                continue
            cl = Reads(self.this, caches, ())
            I = Interp(self.m.p, cl)
            I.run(f, this=S(self.this), world=World())
            for k, v in cl.reads.items():
                out.setdefault(k, v)
        for c, r in self.readsets().items():
            for k, v in r.items():
                out.setdefault(k, v)
        self._q = out
        return out


_infos = {}


def info(model, cls):
    k = (id(model), cls)
    if k not in _infos:
        _infos[k] = ClassInfo(model, cls)
    return _infos[k]
