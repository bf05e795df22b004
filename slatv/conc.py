"""Locks, shared state and parallel regions: a context-sensitive lockset
analysis over the abstract interpreter."""
import re
from .interp import *
from .load import AnalysisBroken
from . import model as M

LOCKT = ("omp_lock_t", "omp_nest_lock_t", "std::mutex", "std::recursive_mutex")


def walk(s):
    st = [s]
    while st:
        x = st.pop()
        if isinstance(x, dict):
            yield x
            st.extend(x.values())
        elif isinstance(x, list):
            st.extend(x)


def is_lock_type(t):
    return t.replace("const ", "").strip() in LOCKT


class Access:
    __slots__ = ("key", "write", "held", "at", "fn", "loc", "entry", "par")

    def __init__(self, key, write, held, at, fn, loc, entry, par):
        self.key, self.write, self.held, self.at, self.fn, self.loc, self.entry, self.par = key, write, held, at, fn, loc, entry, par


class LockClient(Client):
    """Automaton state: frozenset of locks held (locations, or
    ('crit', name) for omp critical)."""
    throws = True
    drop_on_lock = "store"

    def __init__(self, conc, this, entry):
        self.conc, self.this, self.entry = conc, this, entry
        self.acc = []
        self.problems = []     # (kind, at, lock, held)
        self.acquires = []     # (lock, held before, at)
        self.calls_held = []   # (callee name, e, held, at)
        self.I = None
        self.underflow = []
        self.par = 0
        self.unknown = 0
        self.inline_integration = entry is not None and entry["q"].endswith("::MAQ")

    def policy(self, e, fn, obj):
        cl = e.get("cl") or e.get("cls") or ""
        if e["k"] == "dtor":
            return "inline" if fn is not None and fn["id"] in self.conc.locky else "opaque"
        if fn is not None and fn.get("islambda"):
            return "inline"
        if cl.startswith(M.VALUE_CLASSES[0]):
            return "opaque"
        if not obj:
            return "inline"
        if all(t == self.this for t in obj):
            return "inline"
        if all(root(t).op == "v" and t == root(t) for t in obj):
            return "inline"
        return "inline" if fn is not None and fn["id"] in self.conc.helper else "opaque"

    def maythrow(self, e):
        if e.get("inrepo"):
            return e.get("f") in self.conc.throwing
        return e.get("n") in ("at", "stoi", "stod", "stol", "stoul")

    def icall_throws(self, e, t):
        # a calculation may throw; notifications (no result) do not
        return (e.get("t") or "") != "void"

    def key(self, l):
        r = root(l)
        if r == self.this:
            fs = []
            t = l
            while t != r:
                if t.op == "f":
                    fs.append(t.a[1])
                t = t.a[0]
            if not fs:
                return None
            return ("field", self.this.a[0], fs[-1])
        if r.op == "g":
            if str(r.a[0]).startswith(("std::", "boost::", "__")):
                return None
            return ("global", r.a[0], "")
        return None

    def note(self, w, l, write, ev):
        if self.I.mute:
            return
        k = self.key(l)
        if k is None:
            return
        self.acc.append(Access(k, write, w.dom or frozenset(), ev.at(), ev.fn, l, self.entry, self.conc.in_parallel(ev)))

    def maybe_same(self, w, h, l):
        """Same lock member of an object given by a pointer and of this one,
        with nothing on the path that says they differ."""
        if h.op != "f" or l.op != "f" or h.a[1] != l.a[1]:
            return False
        a, b = h.a[0], l.a[0]
        if self.this not in (a, b):
            return False
        o = b if a == self.this else a
        if o.op in ("v", "new", "g", "idx", "obj") or root(o) == self.this:
            return False
        for t, v in w.facts:
            if not v and t.op == "eq" and set(t.a) >= {o, self.this}:
                return False
            if not v and t.op == "eq" and {self.unaddr(x) for x in t.a} >= {self.unaddr(o), self.this}:
                return False
        return True

    @staticmethod
    def unaddr(x):
        while isinstance(x, T) and x.op == "addr":
            x = x.a[0]
        return x

    def on(self, w, ev):
        d = ev.d
        k = ev.k
        if k == "lock":
            op = d["op"]
            held = w.dom or frozenset()
            if op in ("omp_set_lock", "omp_set_nest_lock"):
                if len(d["locs"]) != 1:
                    self.unknown += 1
                    return None
                l = next(iter(d["locs"]))
                if not self.I.mute:
                    self.acquires.append((l, held, ev.at(), ev.fn))
                if l in held and "nest" not in op and not self.I.mute:
                    self.problems.append(("takes a lock it already holds", ev.at(), l, held))
                for h in held:
                    if h != l and "nest" not in op and not self.I.mute and self.maybe_same(w, h, l):
                        self.problems.append(("takes a lock which can be the one it holds (%s)" % show(h), ev.at(), l, held))
                w = w.copy()
                w.dom = held | {l}
                return [w]
            if op in ("omp_unset_lock", "omp_unset_nest_lock"):
                if len(d["locs"]) != 1:
                    self.unknown += 1
                    return None
                l = next(iter(d["locs"]))
                if l not in held:
                    if not self.I.mute:
                        self.underflow.append((l, ev.at()))
                    return None
                w = w.copy()
                w.dom = held - {l}
                return [w]
            if "test" in op:
                self.unknown += 1
            return None
        if k == "omp" and d["d"] in ("critical", "atomic"):
            l = mk("crit", (d.get("name") or "") if d["d"] == "critical" else "(atomic)")
            held = w.dom or frozenset()
            if not self.I.mute:
                self.acquires.append((l, held, ev.at(), ev.fn))
                if l in held:
                    self.problems.append(("enters a critical section from within it", ev.at(), l, held))
            w = w.copy()
            w.dom = held | {l}
            return [w]
        if k == "endomp" and d["d"] in ("critical", "atomic"):
            w = w.copy()
            w.dom = (w.dom or frozenset()) - {mk("crit", (d.get("name") or "") if d["d"] == "critical" else "(atomic)")}
            return [w]
        if k == "read":
            for l in d["locs"]:
                self.note(w, l, False, ev)
        elif k == "write":
            for l in d["locs"]:
                self.note(w, l, True, ev)
        elif k in ("index", "cquery", "elem"):
            for l in d.get("cont") or ():
                self.note(w, l, False, ev)
        elif k == "cmod":
            for l in d["cont"]:
                self.note(w, l, True, ev)
            if d.get("n") in ("erase", "clear"):
                held = w.dom or frozenset()
                gone = {h for h in held if h.op == "f" and h.a[0].op == "idx" and h.a[0].a[0] in d["cont"]}
                if gone:
                    w = w.copy()
                    w.dom = held - gone
                    return [w]
        elif k in ("assign",):
            for l in d["locs"]:
                self.note(w, l, True, ev)
        elif k == "swap":
            for l in frozenset(d["a"]) | frozenset(d["b"]):
                if isinstance(l, T):
                    self.note(w, l, True, ev)
        elif k == "ext":
            pts = (ev.node or {}).get("pt", []) if isinstance(ev.node, dict) else []
            for pt, v in zip(pts, d.get("vals", [])):
                if pt.rstrip().endswith("*") and not pt.startswith("const ") and "char" not in pt and isinstance(v, frozenset):
                    for t in v:
                        tt = t.a[0] if t.op == "addr" else t
                        if tt.op in ("f", "g"):
                            self.note(w, mk("f", tt, "*"), True, ev)
        elif k in ("opaque", "icall", "integrate"):
            held = w.dom or frozenset()
            if held and not self.I.mute:
                self.calls_held.append((ev, held))
        return None


class Conc:
    def __init__(self, prog, model):
        self.p, self.m = prog, model
        p = prog
        self.direct = {}        # function -> contains a lock operation itself
        self.edges = {}
        self.callers = {}
        self.cached_calls = {}
        for f in p.funcs.values():
            if "body" not in f:
                continue
            es, dl = set(), False
            for part in ("body", "inits"):
                for e in walk(f.get(part) or []):
                    k = e.get("k")
                    if k in ("call", "ctor", "memfn") and e.get("f"):
                        es.add(e["f"])
                        for o in p.overriders.get(e["f"], []):
                            es.add(o)
                        n = e.get("n", "")
                        if n.startswith("omp_") and n.endswith("_lock") and not n.startswith(("omp_init", "omp_destroy")):
                            dl = True
                    elif k == "lambda":
                        es.add(e["f"])
                    elif k == "ref" and e.get("dk") == "func":
                        es.add(e.get("d"))
                    elif k == "omp" and e.get("d") in ("critical", "atomic"):
                        dl = True
                    if k == "decl":
                        for v in e.get("vars", []):
                            r = (v.get("t") or "").replace("const ", "").strip()
                            if r in p.dtor_of and not v.get("ref"):
                                es.add(p.dtor_of[r]["id"])
            self.edges[f["id"]] = es
            self.direct[f["id"]] = dl
        for a, es in self.edges.items():
            for b in es:
                self.callers.setdefault(b, set()).add(a)
        # functions which (transitively) operate on locks
        self.locky = {a for a, d in self.direct.items() if d}
        ch = True
        while ch:
            ch = False
            for a, es in self.edges.items():
                if a not in self.locky and any(b in self.locky for b in es):
                    self.locky.add(a)
                    ch = True
        self.helper = set()
        self._acc = {}
        self.throwing = self.throwers()
        self.par_lines = self.parallel_lines()

    def field_closures(self):
        """Cache field -> lambdas given to it by constructors."""
        out = {}
        for f in self.p.funcs.values():
            for ini in f.get("inits") or []:
                fid = ini.get("f") or ini.get("field")
                e = ini.get("e") or ini.get("v")
                if not isinstance(e, dict):
                    continue
                if e.get("k") == "ctor" and M.is_cache_t(e.get("cls") or ""):
                    for x in walk(e.get("a") or []):
                        if x.get("k") == "lambda":
                            out.setdefault(fid, set()).add(x["f"])
        return out

    def throwers(self):
        """Functions an exception can leave: explicit throws, propagated along
        calls (virtual calls: every override; cached calculations: the lambdas
        given to that cache; lambdas: wherever they are created, unless they
        are kept for later)."""
        p = self.p
        calls, out = {}, set()
        fc = self.field_closures()
        self.fieldclo = fc
        later = set()
        for f in p.funcs.values():
            for part in ("body", "inits"):
                for e in walk(f.get(part) or []):
                    if (e.get("k") == "ctor" and (M.is_cache_t(e.get("cls") or "") or (e.get("cls") or "").endswith("TempContext"))) or (
                            e.get("k") == "call" and e.get("n") in ("add_callbacks", "Add_Cache", "PushText")):
                        for x in walk(e.get("a") or []):
                            if x.get("k") == "lambda":
                                later.add(x["f"])

        def scan(x, f, intry):
            if isinstance(x, list):
                for y in x:
                    scan(y, f, intry)
                return
            if not isinstance(x, dict):
                return
            k = x.get("k")
            if k == "lambda":
                if x["f"] not in later and not intry:
                    calls.setdefault(x["f"], set()).add(f)
                return
            if k == "try":
                anyh = any((not h.get("v") or h.get("t") == "...") and not any(y.get("k") == "throw" and y.get("e") is None for y in walk(h.get("b")))
                           for h in x.get("h", []))
                scan(x["b"], f, intry or anyh)
                for h in x.get("h", []):
                    scan(h, f, intry)
                return
            if k == "throw" and not intry and x.get("e") is not None:
                out.add(f)
            if k == "call" and x.get("n") in ("rethrow_exception", "throw_with_nested") and not intry:
                out.add(f)
            if k in ("call", "ctor") and not intry:
                if x.get("f"):
                    if not M.is_cache_t(x.get("cl") or ""):
                        calls.setdefault(x["f"], set()).add(f)
                        if x.get("virt"):
                            for o in self.over(x["f"]):
                                calls.setdefault(o, set()).add(f)
                    o = x.get("o")
                    if x.get("n") == "operator()" and M.is_cache_t(x.get("cl") or ""):
                        fl = fc.get(o.get("f")) if isinstance(o, dict) and o.get("k") == "mem" else None
                        for c in (fl if fl is not None else self.cache_closures()):
                            calls.setdefault(c, set()).add(f)
            for y in x.values():
                if isinstance(y, (dict, list)):
                    scan(y, f, intry)
        for f in p.funcs.values():
            for part in ("body", "inits"):
                if f.get(part):
                    scan(f[part], f["id"], False)
        self.throwvia = {}
        st = list(out)
        while st:
            x = st.pop()
            for c in calls.get(x, ()):
                if c not in out:
                    out.add(c)
                    self.throwvia[c] = x
                    st.append(c)
        return out

    # -- parallel regions
    def parallel_lines(self):
        out = []
        self.regions = []
        for f in self.p.funcs.values():
            if "body" not in f:
                continue
            for e in walk(f["body"]):
                if e.get("k") == "omp" and "parallel" in (e.get("d") or ""):
                    self.regions.append((f, e))
        return out

    def in_parallel(self, ev):
        return False

    def cache_closures(self):
        """Lambdas given to caches, anywhere."""
        out = set()
        for f in self.p.funcs.values():
            for part in ("body", "inits"):
                for e in walk(f.get(part) or []):
                    if e.get("k") == "ctor" and M.is_cache_t(e.get("cls") or ""):
                        for x in walk(e.get("a") or []):
                            if x.get("k") == "lambda":
                                out.add(x["f"])
        return out

    def concurrent(self):
        """Functions that may run in several threads at once: reachable from
        the body of a parallel region."""
        if hasattr(self, "_conc"):
            return self._conc
        p = self.p
        seen, st = set(), []
        cc = self.cache_closures()
        if not self.regions:
            return set()

        def push(e):
            k = e.get("k")
            out = []
            if k in ("call", "ctor", "memfn") and e.get("f"):
                out.append(e["f"])
                out += self.over(e["f"])
                if e.get("n") == "operator()" and M.is_cache_t(e.get("cl") or ""):
                    out += list(cc)
            elif k == "lambda":
                out.append(e["f"])
            elif k == "ref" and e.get("dk") == "func":
                out.append(e.get("d"))
            elif k == "decl":
                for v in e.get("vars", []):
                    r = (v.get("t") or "").replace("const ", "").strip()
                    if r in p.dtor_of and not v.get("ref"):
                        out.append(p.dtor_of[r]["id"])
            return out
        for f, r in self.regions:
            for e in walk(r.get("b")):
                st += push(e)
        while st:
            i = st.pop()
            if i in seen or i not in p.funcs or "body" not in p.funcs[i]:
                continue
            seen.add(i)
            f = p.funcs[i]
            for part in ("body", "inits"):
                for e in walk(f.get(part) or []):
                    st += push(e)
        self._conc = seen
        return seen

    def over(self, i):
        out, st = set(), [i]
        while st:
            x = st.pop()
            for o in self.p.overriders.get(x, []):
                if o not in out:
                    out.add(o)
                    st.append(o)
        return list(out)

    # -- per-function runs
    def this_of(self, f):
        r = f.get("rec")
        if f.get("islambda"):
            r = f.get("encl_rec") or self.lambda_rec(f)
        if r and r in self.p.records:
            return mk("obj", r)
        return None

    def lambda_rec(self, f):
        if not hasattr(self, "_lrec"):
            self._lrec = {}
            for g in self.p.funcs.values():
                for part in ("body", "inits"):
                    for e in walk(g.get(part) or []):
                        if e.get("k") == "lambda":
                            self._lrec.setdefault(e["f"], g)
        g, n = f, 0
        while g is not None and g.get("islambda") and n < 8:
            g = self._lrec.get(g["id"])
            n += 1
        return g.get("rec") if g else None

    def run(self, f):
        """(client, [(world, outcome)]) of f as an entry with no lock held."""
        k = f["id"]
        if k not in self._acc:
            th = self.this_of(f)
            cl = LockClient(self, th, f)
            I = Interp(self.p, cl)
            cl.I = I
            outs = I.run(f, this=S(th) if th is not None else None, world=World(dom=frozenset()))
            cl.inl = I.inlined
            self._acc[k] = (cl, outs)
        return self._acc[k]

    def unbalanced(self, f):
        cl, outs = self.run(f)
        if cl.underflow:
            return True
        return any(w.dom for w, o in outs)


_c = {}


def conc(prog, model):
    k = id(prog)
    if k not in _c:
        _c[k] = Conc(prog, model)
    return _c[k]
