"""Abstract interpretation of SLAT's Python part (the module `pyslat` and the
script interpreter), from its syntax tree.

Values are what the program says when its inputs are symbols: constants,
lists and dictionaries of values, objects of the classes the source defines,
and terms for everything else.  The native modules (pyslatcore, math, numpy, os)
are not looked into: a call of theirs is a term and, in order, an effect.
A loop over a symbolic sequence is followed once, for an arbitrary element:
what the body appends is a part `[value for element in sequence]`, a string
which the body extends becomes such a part too.  A condition on a symbol splits
the analysis; the facts of each case are kept.  Nothing is executed and no
solver is involved."""
import time, ast, os

REPO = os.environ.get("SLAT_REPO", "/repo")


class Undecided(Exception):
    """The source does something the analysis has no rule for."""


class PyRaise(Exception):
    """An exception the analysed program raises."""
    def __init__(self, kind, value=None):
        Exception.__init__(self, kind)
        self.kind, self.value = kind, value


class _Return(Exception):
    def __init__(self, v):
        self.v = v


class _Break(Exception):
    pass


class _Continue(Exception):
    pass


# ---------------------------------------------------------------- values

class Term:
    __slots__ = ("op", "a", "h")
    table = {}

    def __repr__(self):
        return show(self)


def mk(op, *a):
    key = (op,) + tuple((type(x).__name__, x) if isinstance(x, (int, float, str, bool)) or x is None else
                        (id(x) if not isinstance(x, (tuple, frozenset)) else x) for x in a)
    t = Term.table.get(key)
    if t is None:
        t = Term()
        t.op, t.a = op, a
        Term.table[key] = t
    return t


LOOPS = [()]     # the loops being followed: where a container is made


class LList:
    """A list: parts ("v", value) or ("star", source, value)."""
    def __init__(self, parts=()):
        self.parts = list(parts)
        self.born = LOOPS[0]

    @staticmethod
    def of(values):
        return LList([("v", v) for v in values])

    def plain(self):
        return all(p[0] == "v" for p in self.parts)

    def values(self):
        return [p[1] for p in self.parts]

    def __repr__(self):
        return show(self)


class LDict:
    """A dictionary: entries [key, value, source or None] over a symbolic base
    (None: empty; a function key -> value or None otherwise)."""
    def __init__(self, base=None, name=None):
        self.entries = []
        self.born = LOOPS[0]
        self.base, self.name = base, name

    def __repr__(self):
        return show(self)


class Obj:
    def __init__(self, cls, sym=None):
        self.cls, self.attrs, self.sym = cls, {}, sym

    def __repr__(self):
        return show(self)


class Cls:
    def __init__(self, name, bases, mod):
        self.name, self.bases, self.ns, self.mod = name, bases, {}, mod

    def mro(self):
        out = [self]
        for b in self.bases:
            if isinstance(b, Cls):
                out += [c for c in b.mro() if c not in out]
        return out

    def find(self, name, after=None):
        m = self.mro()
        if after is not None:
            m = m[m.index(after) + 1:] if after in m else m
        for c in m:
            if name in c.ns:
                return c.ns[name], c
        return None, None

    def __repr__(self):
        return "<class %s>" % self.name


class Fn:
    def __init__(self, node, env, mod, cls=None, name=None):
        self.node, self.env, self.mod, self.cls = node, env, mod, cls
        self.name = name or getattr(node, "name", "<lambda>")
        self.defaults = []
        self.kwdefaults = {}

    def __repr__(self):
        return "<function %s>" % self.name


class Bound:
    def __init__(self, self_, fn):
        self.self_, self.fn = self_, fn

    def __repr__(self):
        return "<bound %s>" % self.fn.name


class Builtin:
    def __init__(self, name, f):
        self.name, self.f = name, f

    def __repr__(self):
        return "<builtin %s>" % self.name


class Mod:
    def __init__(self, name):
        self.name, self.ns = name, {}

    def __repr__(self):
        return "<module %s>" % self.name


class Super:
    def __init__(self, obj, cls):
        self.obj, self.cls = obj, cls


class Str:
    """A string put together from pieces: literal text, ("fmt", spec, value),
    ("star", source, pieces) and ("phi", term)."""
    def __init__(self, pieces):
        out = []
        for p in pieces:
            if isinstance(p, str):
                if p == "":
                    continue
                if out and isinstance(out[-1], str):
                    out[-1] += p
                    continue
            out.append(p)
        self.pieces = tuple(out)

    def __repr__(self):
        return show(self)


def mkstr(pieces):
    s = Str(pieces)
    if not s.pieces:
        return ""
    if len(s.pieces) == 1 and isinstance(s.pieces[0], str):
        return s.pieces[0]
    return s


class Loops(tuple):
    """The sequences gone through around a place, and which loops they are."""
    def __new__(cls, I):
        o = tuple.__new__(cls, I.loops)
        o.ids = tuple(I.loop_ids)
        return o


def concrete(v):
    return v is None or isinstance(v, (bool, int, float, str))


def show(v, d=0):
    if d > 12:
        return "..."
    n = d + 1
    if isinstance(v, Term):
        o, a = v.op, v.a
        if o == "sym":
            return str(a[0])
        if o == "attr":
            return "%s.%s" % (show(a[0], n), a[1])
        if o == "call":
            return "%s(%s)" % (show(a[0], n), ", ".join([show(x, n) for x in a[1]] + ["%s=%s" % (k, show(x, n)) for k, x in a[2]]))
        if o == "elem":
            return "each(%s)" % show(a[0], n)
        if o == "pos":
            return "position(%s)" % show(a[0], n)
        if o == "item":
            return "%s[%s]" % (show(a[0], n), show(a[1], n))
        if o == "bin":
            return "(%s %s %s)" % (show(a[1], n), a[0], show(a[2], n))
        return "%s(%s)" % (o, ", ".join(show(x, n) for x in a))
    if isinstance(v, LList):
        return "[%s]" % ", ".join(show(p[1], n) if p[0] == "v" else "%s for each of %s" % (show(p[2], n), show(p[1], n)) for p in v.parts)
    if isinstance(v, tuple):
        return "(%s)" % ", ".join(show(x, n) for x in v)
    if isinstance(v, LDict):
        return "{%s%s}" % (", ".join("%s: %s" % (show(k, n), show(x, n)) for k, x, _ in v.entries), ", ..." if v.base else "")
    if isinstance(v, Obj):
        return show(v.sym, n) if v.sym is not None else "<%s>" % v.cls.name
    if isinstance(v, Str):
        return "str(%s)" % " ".join(repr(p) if isinstance(p, str) else
                                    ("{%s}" % show(p[2], n) if p[0] == "fmt" else
                                     "<%s for each of %s>" % (show(Str(p[2]), n), show(p[1], n)) if p[0] == "star" else show(p[1], n))
                                    for p in v.pieces)
    return repr(v)


def freeze(v):
    """A hashable form of a value, two values being equal when their forms are.
    Lists are taken by their contents."""
    if isinstance(v, bool) or v is None or isinstance(v, str):
        return (type(v).__name__, v)
    if isinstance(v, (int, float)):
        return ("num", float(v))
    if isinstance(v, Term):
        return v
    if isinstance(v, LList):
        return ("list",) + tuple((p[0],) + tuple(freeze(x) for x in p[1:]) for p in v.parts)
    if isinstance(v, tuple):
        return ("tuple",) + tuple(freeze(x) for x in v)
    if isinstance(v, LDict):
        return ("dict", frozenset((freeze(k), freeze(x), s) for k, x, s in v.entries), bool(v.base))
    if isinstance(v, Obj):
        return v.sym if v.sym is not None else ("obj", id(v))
    if isinstance(v, Str):
        return ("str",) + tuple(p if isinstance(p, str) else tuple(_fz(x) for x in p) for p in v.pieces)
    return ("py", id(v))


def _fz(x):
    if isinstance(x, tuple) and x and not isinstance(x, str):
        return tuple(p if isinstance(p, str) else tuple(_fz(y) for y in p) if isinstance(p, tuple) else _fz(p) for p in x)
    return freeze(x) if not isinstance(x, str) else x


def walk(v, seen=None):
    """Every term inside a value."""
    st = [v]
    seen = set()
    while st:
        x = st.pop()
        if isinstance(x, (Term, LList, LDict, Obj)):
            if id(x) in seen:
                continue
            seen.add(id(x))
        if isinstance(x, Term):
            yield x
            st += list(x.a)
        elif isinstance(x, LList):
            for p in x.parts:
                st += list(p[1:])
        elif isinstance(x, (tuple, list, frozenset)):
            st += list(x)
        elif isinstance(x, LDict):
            for e in x.entries:
                st += e
        elif isinstance(x, Str):
            st += list(x.pieces)
        elif isinstance(x, Obj):
            if x.sym is not None:
                st.append(x.sym)


def has(v, pred):
    return any(pred(t) for t in walk(v))


# ---------------------------------------------------------------- one case

class Case:
    """One replayed case: decisions taken so far and their facts."""
    def __init__(self, script=()):
        self.script = list(script)
        self.taken = []
        self.facts = {}
        self.effects = []
        self.alternatives = []
        self.known = None        # what is so in every case: key -> True, False or None

    def decide(self, key, prefer=True):
        if key in self.facts:
            return self.facts[key]
        if self.known is not None:
            r = self.known(key)
            if r is not None:
                return r
        if isinstance(key, tuple) and key[0] == "eq" and concrete(key[2]):
            for k, v in self.facts.items():
                if isinstance(k, tuple) and k[0] == "eq" and k[1] is key[1] and v and concrete(k[2]):
                    return False
        if isinstance(key, tuple) and key[0] == "isinstance":
            for k, v in self.facts.items():
                if isinstance(k, tuple) and k[0] == "isinstance" and k[1] is key[1] and v and k[2] != key[2]:
                    return False
        n = len(self.taken)
        if n > 300:
            raise Undecided("too many decisions in one case")
        if n < len(self.script):
            v = self.script[n]
        else:
            v = prefer
            self.alternatives.append(self.taken + [not prefer])
        self.taken.append(v)
        self.facts[key] = v
        return v


DEADLINE = [time.time() + 500]


def given_up(why):
    """Not every case is looked at: what was found stands."""
    from .report import Check
    if Check.current is not None and why not in Check.current.notes:
        Check.current.broken(why)


def cases(f, limit=4000):
    """f(case) for every combination of decisions; yields (case, result)."""
    todo = [[]]
    n = 0
    while todo:
        s = todo.pop()
        c = Case(s)
        n += 1
        if n > limit or time.time() > DEADLINE[0]:
            given_up("more than %d cases" % limit if n > limit else "no time left")
            return
        r = f(c)
        todo += c.alternatives
        yield c, r


# ---------------------------------------------------------------- sources

_asts = {}


def source(path):
    if path not in _asts:
        with open(path, encoding="utf-8") as f:
            _asts[path] = ast.parse(f.read(), path)
    return _asts[path]


EXT = {"pyslatcore", "math", "numpy", "numbers", "sys", "os", "os.path", "logging", "glob", "re", "io",
       "antlr4", "distutils", "slatLexer", "slatParser", "slatParserListener", "contextlib"}

EXTERN_CLASSES = ("slatParserListener",)


class Env:
    def __init__(self, parent=None, mod=None, fn=None):
        self.v, self.parent, self.mod, self.fn = {}, parent, mod, fn
        self.globals = set()

    def get(self, n):
        e = self
        while e is not None:
            if n in e.v:
                return e, e.v[n]
            e = e.parent
        return None, None


MISSING = object()


class PyInterp:
    def __init__(self, case, src=None, client=None):
        self.case = case
        self.src = src or os.path.join(REPO, "src")
        self.mods = {}
        self.loops = []           # active symbolic loops (sources)
        LOOPS[0] = ()
        self.depth = 0
        self.loop_ids, self.loop_count = [], 0
        self.out = []             # what is printed: (destination, value)
        self.stdout = "stdout"
        self.functions = set()    # functions followed
        self.lens = {}            # length -> the pieces of the list which has it
        self.kinds = {}           # term -> kind of value it stands for
        self.registry = {}        # class name -> handler
        self.known_classes = {}
        self.steps = 0
        self.b = self.builtins()

    # -- modules
    def module(self, name):
        if name in self.mods:
            return self.mods[name]
        path = os.path.join(self.src, name + ".py")
        if name in EXT or not os.path.exists(path):
            return mk("sym", name)
        m = Mod(name)
        m.path = path
        m.ns["__name__"] = name
        self.mods[name] = m
        env = Env(mod=m)
        env.v = m.ns
        self.block(source(path).body, env)
        return m

    # -- effects
    def effect(self, *e):
        self.case.effects.append(e + (tuple(self.loops),))

    # -- truth
    def truth(self, v):
        if isinstance(v, (Cls, Fn, Bound, Builtin, Mod, Obj, Super)):
            if isinstance(v, Obj):
                f, _ = v.cls.find("__len__")
                if f:
                    return self.truth(self.call(Bound(v, f), [], {}))
                f, _ = v.cls.find("__bool__")
                if f:
                    return self.truth(self.call(Bound(v, f), [], {}))
            return True
        if isinstance(v, LList):
            if any(p[0] == "v" for p in v.parts):
                return True
            if not v.parts:
                return False
            return self.case.decide(("nonempty", v.parts[0][1]))
        if isinstance(v, LDict):
            if v.entries:
                return True
            if v.base is None:
                return False
            return self.case.decide(("nonempty", mk("dict", v.name)))
        if isinstance(v, Str):
            return True if any(isinstance(p, str) for p in v.pieces) else self.case.decide(("true", freeze(v)))
        if isinstance(v, Term):
            k = self.kinds.get(v)
            if k in ("object", "function"):
                return True
            if v.op == "not":
                return not self.truth(v.a[0])
            if v.op == "cmp":
                return self.compare_known(v)
            if v.op == "call" and v.a[0].op == "attr" and v.a[0].a[1].startswith("Make"):
                return True
            return self.case.decide(("true", v))
        return bool(v)

    def compare_known(self, t):
        return self.case.decide(("cmp",) + t.a)

    # -- statements
    def block(self, body, env):
        for s in body:
            self.stmt(s, env)

    def stmt(self, s, env):
        self.steps += 1
        if self.steps > 200000:
            raise Undecided("too many steps")
        m = getattr(self, "s_" + type(s).__name__, None)
        if m is None:
            raise Undecided("statement %s" % type(s).__name__)
        return m(s, env)

    def s_Expr(self, s, env):
        self.ev(s.value, env)

    def s_Pass(self, s, env):
        pass

    def s_Import(self, s, env):
        for a in s.names:
            if a.asname:
                env.v[a.asname] = self.module(a.name)
            else:
                env.v[a.name.split(".")[0]] = self.module(a.name.split(".")[0])

    def s_ImportFrom(self, s, env):
        if s.module == "contextlib":
            for a in s.names:
                env.v[a.asname or a.name] = mk("sym", "contextlib." + a.name)
            return
        m = self.module(s.module)
        for a in s.names:
            if a.name == "*":
                if isinstance(m, Mod):
                    for k, v in m.ns.items():
                        if not k.startswith("_"):
                            env.v[k] = v
                continue
            if isinstance(m, Mod):
                if a.name not in m.ns:
                    raise PyRaise("ImportError")
                env.v[a.asname or a.name] = m.ns[a.name]
            elif a.name in EXTERN_CLASSES:
                c = Cls(a.name, [], None)
                env.v[a.asname or a.name] = c
            else:
                env.v[a.asname or a.name] = mk("attr", m, a.name) if m.a[0] != a.name else mk("sym", a.name)

    def s_FunctionDef(self, s, env):
        f = Fn(s, env, self.mod_of(env), getattr(env, "cls", None))
        f.defaults = [self.ev(d, env) for d in s.args.defaults]
        f.kwdefaults = {a.arg: self.ev(d, env) for a, d in zip(s.args.kwonlyargs, s.args.kw_defaults) if d is not None}
        v = f
        for d in reversed(s.decorator_list):
            if isinstance(d, ast.Name) and d.id in ("staticmethod", "classmethod", "property"):
                f.deco = d.id
            else:
                v = self.call(self.ev(d, env), [v], {})
        env.v[s.name] = v

    def mod_of(self, env):
        while env.parent is not None:
            env = env.parent
        return env.mod

    def s_ClassDef(self, s, env):
        c = Cls(s.name, [self.ev(b, env) for b in s.bases], self.mod_of(env))
        e = Env(env, env.mod)
        e.v = c.ns
        e.cls = c
        self.block(s.body, e)
        env.v[s.name] = c

    def s_Return(self, s, env):
        raise _Return(self.ev(s.value, env) if s.value is not None else None)

    def s_Global(self, s, env):
        env.globals |= set(s.names)

    def s_Nonlocal(self, s, env):
        raise Undecided("nonlocal")

    def s_Delete(self, s, env):
        for t in s.targets:
            if isinstance(t, ast.Name):
                env.v.pop(t.id, None)
            elif isinstance(t, ast.Subscript):
                o = self.ev(t.value, env)
                k = self.ev(t.slice, env)
                if isinstance(o, LDict):
                    self.dict_pop(o, k)
                else:
                    raise Undecided("del of an element")
            else:
                raise Undecided("del")

    def s_Assert(self, s, env):
        if not self.truth(self.ev(s.test, env)):
            raise PyRaise("AssertionError")

    def s_Raise(self, s, env):
        k = "Exception"
        v = None
        if s.exc is not None:
            v = self.ev(s.exc, env)
            k = v.a[0].a[0] if isinstance(v, Term) and v.op == "call" and v.a[0].op == "sym" else \
                v.a[0] if isinstance(v, Term) and v.op == "sym" else \
                v.cls.name if isinstance(v, Obj) else v.name if isinstance(v, (Cls, Builtin)) else "Exception"
        raise PyRaise(k, v)

    def s_Assign(self, s, env):
        v = self.ev(s.value, env)
        for t in s.targets:
            self.assign(t, v, env)

    def s_AnnAssign(self, s, env):
        if s.value is not None:
            self.assign(s.target, self.ev(s.value, env), env)

    def s_AugAssign(self, s, env):
        if isinstance(s.target, ast.Name):
            old = self.ev(ast.Name(id=s.target.id, ctx=ast.Load()), env)
            v = self.ev(s.value, env)
            if isinstance(old, LList) and isinstance(s.op, ast.Add):
                self.extend(old, v)
                return
            self.assign(s.target, self.binop(type(s.op).__name__, old, v), env)
            return
        if isinstance(s.target, ast.Attribute):
            o = self.ev(s.target.value, env)
            old = self.getattr(o, s.target.attr)
            v = self.ev(s.value, env)
            if isinstance(old, LList) and isinstance(s.op, ast.Add):
                self.extend(old, v)
                return
            self.setattr(o, s.target.attr, self.binop(type(s.op).__name__, old, v))
            return
        if isinstance(s.target, ast.Subscript):
            o = self.ev(s.target.value, env)
            k = self.ev(s.target.slice, env)
            self.setitem(o, k, self.binop(type(s.op).__name__, self.getitem(o, k), self.ev(s.value, env)))
            return
        raise Undecided("augmented assignment")

    def assign(self, t, v, env):
        if isinstance(t, ast.Name):
            e = env
            if t.id in env.globals:
                self.mod_of(env).ns[t.id] = v
                return
            e.v[t.id] = v
        elif isinstance(t, (ast.Tuple, ast.List)):
            vs = self.unpack(v, len(t.elts), t)
            for x, y in zip(t.elts, vs):
                self.assign(x, y, env)
        elif isinstance(t, ast.Attribute):
            self.setattr(self.ev(t.value, env), t.attr, v)
        elif isinstance(t, ast.Subscript):
            self.setitem(self.ev(t.value, env), self.ev(t.slice, env), v)
        else:
            raise Undecided("assignment to %s" % type(t).__name__)

    def unpack(self, v, n, t=None):
        if any(isinstance(x, ast.Starred) for x in (t.elts if t is not None else [])):
            raise Undecided("starred assignment")
        if isinstance(v, tuple):
            if len(v) != n:
                raise PyRaise("ValueError")
            return list(v)
        if isinstance(v, LList):
            if v.plain():
                if len(v.parts) != n:
                    raise PyRaise("ValueError")
                return v.values()
            raise Undecided("unpacking a list of unknown length")
        if isinstance(v, Term):
            return [self.item(v, i) for i in range(n)]
        raise Undecided("unpacking %s" % show(v))

    def s_If(self, s, env):
        c = self.ev(s.test, env)
        if self.loops and isinstance(c, Term) and has(c, lambda t: t.op == "phi"):
            # a condition on what the loop carries: both arms, assignments only
            return self.merge_if(s, c, env)
        if self.truth(c):
            self.block(s.body, env)
        else:
            self.block(s.orelse, env)

    def merge_if(self, s, c, env):
        for b in s.body + s.orelse:
            if not (isinstance(b, ast.Assign) and len(b.targets) == 1 and isinstance(b.targets[0], ast.Name)):
                raise Undecided("a condition on a value carried by a loop")
        before = dict(env.v)
        self.block(s.body, env)
        a = dict(env.v)
        env.v.clear()
        env.v.update(before)
        self.block(s.orelse, env)
        for k in set(a) | set(env.v):
            x, y = a.get(k, MISSING), env.v.get(k, MISSING)
            if x is not y and not (x is not MISSING and y is not MISSING and freeze(x) == freeze(y)):
                if x is MISSING or y is MISSING:
                    raise Undecided("a variable set on one arm only")
                env.v[k] = mk("ite", c, x, y)

    def s_With(self, s, env):
        old = self.stdout
        undo = []
        for it in s.items:
            v = self.ev(it.context_expr, env)
            if isinstance(v, Term) and v.op == "call" and isinstance(v.a[0], Term) and v.a[0].op == "sym" and v.a[0].a[0] == "contextlib.redirect_stdout":
                self.stdout = v.a[1][0]
                if it.optional_vars is not None:
                    self.assign(it.optional_vars, self.stdout, env)
                continue
            if isinstance(v, Obj):
                f, _ = v.cls.find("__enter__")
                if not f:
                    raise Undecided("with")
                x = self.call(Bound(v, f), [], {})
                undo.append(v)
                if it.optional_vars is not None:
                    self.assign(it.optional_vars, x, env)
                continue
            if it.optional_vars is not None:
                self.assign(it.optional_vars, v, env)
        try:
            self.block(s.body, env)
        finally:
            self.stdout = old
            for v in reversed(undo):
                self.call(Bound(v, v.cls.find("__exit__")[0]), [None, None, None], {})

    def s_Try(self, s, env):
        try:
            try:
                self.block(s.body, env)
            except PyRaise as e:
                for h in s.handlers:
                    names = []
                    if h.type is not None:
                        for x in (h.type.elts if isinstance(h.type, ast.Tuple) else [h.type]):
                            names.append(x.id if isinstance(x, ast.Name) else ast.unparse(x))
                    if h.type is None or e.kind in names or "Exception" in names or "BaseException" in names or \
                            (e.kind in ("KeyError", "IndexError") and "LookupError" in names):
                        if h.name:
                            env.v[h.name] = e.value
                        try:
                            self.block(h.body, env)
                        except PyRaise as e2:
                            if e2.kind == "Exception" and e2.value is None:
                                raise e
                            raise
                        break
                else:
                    raise
            else:
                self.block(s.orelse, env)
        finally:
            self.block(s.finalbody, env)

    def s_Break(self, s, env):
        raise _Break()

    def s_Continue(self, s, env):
        raise _Continue()

    def s_While(self, s, env):
        g = getattr(env, "gen", None)
        test = s.test
        flip = False
        while isinstance(test, ast.UnaryOp) and isinstance(test.op, ast.Not):
            test, flip = test.operand, not flip
        c = self.ev(test, env)
        if isinstance(c, Term) and flip:
            c = self.opposite(c)
        n = 0
        if not isinstance(c, (Term, Str)):
            first = len(self.case.facts)
            while self.truth(self.ev(s.test, env)):
                n += 1
                if n > 2000 or n > 8 and len(self.case.facts) >= first + n:
                    raise Undecided("a long loop")
                try:
                    self.block(s.body, env)
                except _Break:
                    return
                except _Continue:
                    pass
                if not flip:
                    c = self.ev(s.test, env)
                    if isinstance(c, (Term, Str)):
                        raise Undecided("while on a symbol")
            self.block(s.orelse, env)
            return
        self.progression(s, env, test, flip)

    OPPOSITE = {"<": ">=", "<=": ">", ">": "<=", ">=": "<", "==": "!=", "!=": "=="}

    def opposite(self, c):
        if c.op == "cmp" and c.a[0] in self.OPPOSITE:
            return mk("cmp", self.OPPOSITE[c.a[0]], *c.a[1:])
        return c

    def progression(self, s, env, test, flip):
        """A while loop over a symbol, in a generator: what it carries."""
        g = getattr(env, "gen", None)
        if g is None or g.parts:
            raise Undecided("while on a symbol")
        names = assigned(s.body)
        init = {n: env.v[n] for n in names if n in env.v}
        loop = mk("while", s.lineno)
        for n in init:
            env.v[n] = mk("phi", loop, n)
        cond = self.ev(test, env)
        if flip:
            cond = self.opposite(cond)
            if cond.op != "cmp":
                raise Undecided("while not")
        self.push(loop)
        try:
            self.block(s.body, env)
        finally:
            self.pop()
        nxt = {n: env.v[n] for n in init}
        if len(g.parts) != 1 or g.parts[0][0] != "star":
            raise Undecided("while on a symbol")
        v = g.parts[0][2]
        del g.parts[:]
        # carried names only, canonical
        live = [n for n in sorted(init) if has((v, cond) + tuple(nxt.values()), lambda t: t is mk("phi", loop, n))]
        if len(live) != 1:
            raise Undecided("while carrying %d values" % len(live))
        n = live[0]
        h = mk("phi", loop, n)
        ren = lambda x: subst(x, {h: mk("carried")})
        g.parts.append(("star", mk("progression", init[n], ren(nxt[n]), ren(cond)), mk("elemof", ren(v))))
        for n in names:
            env.v[n] = mk("after", loop, n)

    def s_For(self, s, env):
        it = self.ev(s.iter, env)
        segs = self.iterate(it)
        for seg in segs:
            if seg[0] == "v":
                self.assign(s.target, seg[1], env)
                try:
                    self.block(s.body, env)
                except _Break:
                    return
                except _Continue:
                    pass
            else:
                self.symbolic_loop(seg[1], lambda: self.assign(s.target, seg[2], env), s.body, env)
        self.block(s.orelse, env)

    def symbolic_loop(self, src, bind, body, env):
        names = assigned(body)
        init = {n: env.v[n] for n in names if n in env.v}
        for n in init:
            env.v[n] = mk("phi", src, n)
        self.push(src)
        try:
            bind()
            try:
                self.block(body, env)
            except _Continue:
                pass
            except _Break:
                raise Undecided("break out of a loop over a symbolic sequence")
        finally:
            self.pop()
        for n in names:
            if n not in env.v:
                continue
            v = env.v[n]
            if n in init:
                env.v[n] = self.after_loop(src, n, init[n], v)
            elif isinstance(v, (Term, Str, LList, tuple)) :
                env.v[n] = mk("last", src, freezable(v))

    def after_loop(self, src, n, init, v):
        h = mk("phi", src, n)
        if v is h:
            return init
        if isinstance(v, Str) and v.pieces and isinstance(v.pieces[0], tuple) and v.pieces[0][0] == "phi" and v.pieces[0][1] is h:
            rest = v.pieces[1:]
            if not has(rest, lambda t: t is h):
                return mkstr(pieces_of(init) + [("star", src, rest)])
        if isinstance(v, LList) and v.parts and v.parts[0] == ("splice", h):
            raise Undecided("list carried by a loop")
        if isinstance(v, Term):
            if v.op == "bin" and v.a[0] == "+":
                for x, y in ((v.a[1], v.a[2]), (v.a[2], v.a[1])):
                    if x is h and not has(y, lambda t: t is h):
                        return self.binop("Add", init, mk("sum", src, y))
            if v.op == "ite" and v.a[0].op == "cmp":
                o, l, r = v.a[0].a
                big = {(">"): (l, r), ">=": (l, r), "<": (r, l), "<=": (r, l)}.get(o)
                if big and h in big:
                    e = big[0] if big[1] is h else big[1]
                    if not has(e, lambda t: t is h):
                        takes_e = v.a[1] is e and v.a[2] is h
                        takes_h = v.a[1] is h and v.a[2] is e
                        if (takes_e and big[0] is e) or (takes_h and big[1] is e):
                            return mk("maximum", src, e, init)
                        if (takes_e and big[1] is e) or (takes_h and big[0] is e):
                            return mk("minimum", src, e, init)
            if not has(v, lambda t: t is h):
                return mk("last", src, v)
        elif not has(v, lambda t: t is h):
            return mk("last", src, freezable(v)) if not concrete(v) else mk("last", src, v)
        return mk("carried-by", src, n)

    # -- expressions
    def ev(self, e, env):
        m = getattr(self, "e_" + type(e).__name__, None)
        if m is None:
            raise Undecided("expression %s" % type(e).__name__)
        return m(e, env)

    def e_Constant(self, e, env):
        return e.value

    def e_Name(self, e, env):
        f = env
        if e.id in env.globals:
            m = self.mod_of(env)
            if e.id in m.ns:
                return m.ns[e.id]
        # class scopes are not visible from the functions inside them
        first = True
        while f is not None:
            if e.id in f.v and (first or not hasattr(f, "cls")):
                return f.v[e.id]
            f = f.parent
            first = False
        if e.id in self.b:
            return self.b[e.id]
        raise PyRaise("NameError", e.id)

    def e_Attribute(self, e, env):
        return self.getattr(self.ev(e.value, env), e.attr)

    def e_Subscript(self, e, env):
        o = self.ev(e.value, env)
        if isinstance(e.slice, ast.Slice):
            lo = self.ev(e.slice.lower, env) if e.slice.lower is not None else None
            hi = self.ev(e.slice.upper, env) if e.slice.upper is not None else None
            st = self.ev(e.slice.step, env) if e.slice.step is not None else None
            if isinstance(o, LList) and o.plain() and all(x is None or isinstance(x, int) for x in (lo, hi, st)):
                return LList(o.parts[slice(lo, hi, st)])
            if isinstance(o, (str, tuple)) and all(x is None or isinstance(x, int) for x in (lo, hi, st)):
                return o[slice(lo, hi, st)]
            if (lo, hi, st) == (None, None, None):
                return LList(o.parts) if isinstance(o, LList) else o
            return mk("slice", freezable(o), lo, hi, st)
        return self.getitem(o, self.ev(e.slice, env))

    def e_Call(self, e, env):
        f = self.ev(e.func, env)
        args = []
        for a in e.args:
            if isinstance(a, ast.Starred):
                v = self.ev(a.value, env)
                if isinstance(v, tuple):
                    args += list(v)
                elif isinstance(v, LList) and v.plain():
                    args += v.values()
                else:
                    args.append(("*", v))
            else:
                args.append(self.ev(a, env))
        kw = {}
        for k in e.keywords:
            if k.arg is None:
                v = self.ev(k.value, env)
                if isinstance(v, LDict) and v.base is None and all(isinstance(x[0], str) and x[2] is None for x in v.entries):
                    for x in v.entries:
                        kw[x[0]] = x[1]
                    continue
                raise Undecided("** of a symbol")
            kw[k.arg] = self.ev(k.value, env)
        if isinstance(e.func, ast.Name) and e.func.id == "super" and not args and f is self.b["super"]:
            fe = env
            while fe is not None and fe.fn is None:
                fe = fe.parent
            fn = fe.fn
            return Super(fe.v[fn.node.args.args[0].arg], fn.cls)
        return self.call(f, args, kw)

    def e_BoolOp(self, e, env):
        v = None
        for x in e.values:
            v = self.ev(x, env)
            if x is e.values[-1]:
                return v
            t = self.truth(v)
            if isinstance(e.op, ast.And) and not t:
                return v if not isinstance(v, Term) else self.falsy(v)
            if isinstance(e.op, ast.Or) and t:
                return v
        return v

    def falsy(self, v):
        return False if self.kinds.get(v) == "bool" or v.op in ("cmp", "not") else v

    def e_UnaryOp(self, e, env):
        v = self.ev(e.operand, env)
        if isinstance(e.op, ast.Not):
            return not self.truth(v)
        if isinstance(v, (int, float)):
            return -v if isinstance(e.op, ast.USub) else +v if isinstance(e.op, ast.UAdd) else ~v
        if isinstance(e.op, ast.USub):
            return self.binop("Sub", 0, v)
        raise Undecided("unary operator")

    def e_BinOp(self, e, env):
        return self.binop(type(e.op).__name__, self.ev(e.left, env), self.ev(e.right, env))

    def binop(self, op, a, b):
        num = lambda x: isinstance(x, (int, float))
        if num(a) and num(b):
            try:
                return {"Add": lambda: a + b, "Sub": lambda: a - b, "Mult": lambda: a * b, "Div": lambda: a / b,
                        "FloorDiv": lambda: a // b, "Mod": lambda: a % b, "Pow": lambda: a ** b}[op]()
            except ZeroDivisionError:
                raise PyRaise("ZeroDivisionError")
            except KeyError:
                raise Undecided("operator " + op)
        if op == "Add" and (isinstance(a, (str, Str)) or isinstance(b, (str, Str))):
            return mkstr(pieces_of(a) + pieces_of(b))
        if op == "Mod" and isinstance(a, str):
            return self.percent(a, b)
        if op == "Mult" and isinstance(a, str) and isinstance(b, int):
            return a * b
        if op == "Add" and isinstance(a, LList) and isinstance(b, LList):
            return LList(a.parts + b.parts)
        if op == "Add" and isinstance(a, tuple) and isinstance(b, tuple):
            return a + b
        if op == "Mult" and isinstance(a, LList) and isinstance(b, int):
            return LList(a.parts * b)
        if op == "Mult" and isinstance(a, LList) and len(a.parts) == 1 and a.parts[0][0] == "v":
            return LList([("star", mk("range", 0, b), a.parts[0][1])])
        if a is None or b is None:
            raise PyRaise("TypeError")
        sym = {"Add": "+", "Sub": "-", "Mult": "*", "Div": "/", "Pow": "**", "FloorDiv": "//", "Mod": "%", "MatMult": "@",
               "BitOr": "|", "BitAnd": "&"}.get(op)
        if sym is None:
            raise Undecided("operator " + op)
        if isinstance(a, (Term, int, float)) and isinstance(b, (Term, int, float)):
            return arith(sym, a, b)
        return mk("bin", sym, freezable(a), freezable(b))

    def percent(self, f, b):
        args = list(b) if isinstance(b, tuple) else [b]
        import re
        out = []
        i = 0
        for m in re.finditer(r"%(%|[-+ 0#]*\d*(?:\.\d+)?[sdfgeri])", f):
            out.append(f[i:m.start()])
            i = m.end()
            if m.group(1) == "%":
                out.append("%")
                continue
            if not args:
                raise PyRaise("TypeError")
            out += self.fmt_piece(m.group(1), args.pop(0))
        out.append(f[i:])
        if args:
            raise PyRaise("TypeError")
        return mkstr(out)

    def e_Compare(self, e, env):
        l = self.ev(e.left, env)
        res = None
        for o, c in zip(e.ops, e.comparators):
            r = self.ev(c, env)
            v = self.compare(type(o).__name__, l, r)
            if c is e.comparators[-1]:
                return v
            if not self.truth(v):
                return False
            l = r
        return res

    def compare(self, op, l, r):
        if op in ("Eq", "NotEq", "Is", "IsNot"):
            v = self.equal(l, r, op in ("Is", "IsNot"))
            return (not v) if op in ("NotEq", "IsNot") else v
        if op in ("In", "NotIn"):
            v = self.contains(r, l)
            return (not v) if op == "NotIn" else v
        num = lambda x: isinstance(x, (int, float)) and not isinstance(x, bool)
        if (num(l) and num(r)) or (isinstance(l, str) and isinstance(r, str)):
            return {"Lt": l < r, "LtE": l <= r, "Gt": l > r, "GtE": l >= r}[op]
        if l is None or r is None:
            raise PyRaise("TypeError")
        sym = {"Lt": "<", "LtE": "<=", "Gt": ">", "GtE": ">="}[op]
        ls = l if not isinstance(l, (LList, Str, tuple, LDict)) else freezable(l)
        rs = r if not isinstance(r, (LList, Str, tuple, LDict)) else freezable(r)
        return mk("cmp", sym, ls, rs)

    def equal(self, l, r, ident=False):
        if concrete(l) and concrete(r):
            if ident and (l is None or r is None or isinstance(l, bool) or isinstance(r, bool)):
                return l is r
            return l == r
        if l is r:
            return True
        if l is None or r is None:
            o = r if l is None else l
            if isinstance(o, Term):
                k = self.kinds.get(o)
                if k is not None or o.op in ("bin", "elem-nonnull", "attr") and self.never_none(o) or \
                        (o.op == "call" and self.never_none(o)):
                    return False
                return self.case.decide(("none", o), False)
            return False
        if isinstance(l, (Cls, Builtin, Mod, Fn)) or isinstance(r, (Cls, Builtin, Mod, Fn)):
            t, c = (l, r) if isinstance(l, Term) else (r, l)
            if isinstance(t, Term) and t.op == "typeof":
                return self.case.decide(("isinstance", t.a[0], self.clsname(c)))
            return False
        if isinstance(l, Obj) or isinstance(r, Obj):
            if isinstance(l, Obj) and isinstance(r, Obj):
                if l.sym is None or r.sym is None:
                    return False
                return self.case.decide(("eq", l.sym, r.sym))
            o, t = (l, r) if isinstance(l, Obj) else (r, l)
            if not isinstance(t, Term):
                return False
            if o.sym is None:
                return False
            return self.case.decide(("eq", o.sym, t))
        if isinstance(l, Term) and isinstance(r, Term):
            if l.op == "typeof" or r.op == "typeof":
                t, c = (l, r) if l.op == "typeof" else (r, l)
                if c.op != "typeof":
                    return self.case.decide(("isinstance", t.a[0], show(c)))
            # different enumerators are different
            if self.enumerator(l) and self.enumerator(r):
                return False
            a, b = sorted((l, r), key=id)
            return self.case.decide(("eq", a, b))
        if isinstance(l, Term) or isinstance(r, Term):
            t, c = (l, r) if isinstance(l, Term) else (r, l)
            if concrete(c):
                k = self.kinds.get(t)
                if isinstance(c, str) and k in ("number", "object", "list"):
                    return False
                if self.enumerator(t):
                    return False
                return self.case.decide(("eq", t, c))
            if isinstance(c, (LList, LDict, tuple)):
                return self.case.decide(("eq", t, freeze(c)))
        fl, fr = freeze(l), freeze(r)
        if fl == fr:
            return True
        if isinstance(l, LList) and isinstance(r, LList) and l.plain() and r.plain():
            return len(l.parts) == len(r.parts) and all(self.equal(a, b) for a, b in zip(l.values(), r.values()))
        if isinstance(l, tuple) and isinstance(r, tuple):
            return len(l) == len(r) and all(self.equal(a, b) for a, b in zip(l, r))
        if type(l) is not type(r) and not isinstance(l, Str) and not isinstance(r, Str):
            return False
        return self.case.decide(("eq", fl, fr))

    def enumerator(self, t):
        return t.op == "attr" and t.a[0].op == "sym" and t.a[0].a[0] == "pyslatcore" and t.a[1].isupper() or \
            (t.op == "attr" and t.a[0].op == "sym" and t.a[0].a[0] == "pyslatcore" and t.a[1] in ("NLH", "PLC"))

    def never_none(self, o):
        if o.op == "bin":
            return True
        if o.op == "call":
            f = o.a[0]
            return f.op == "attr" and f.a[1].startswith("Make")
        return self.enumerator(o)

    def contains(self, c, x):
        if isinstance(c, (tuple, list)):
            return any(self.equal(x, y) for y in c)
        if isinstance(c, LList):
            if c.plain():
                return any(self.equal(x, y) for y in c.values())
            return self.case.decide(("in", freeze(x), freeze(c)))
        if isinstance(c, LDict):
            return self.dict_get(c, x, MISSING) is not MISSING
        if isinstance(c, str) and isinstance(x, str):
            return x in c
        return self.case.decide(("in", freeze(x), freeze(c)))

    def e_IfExp(self, e, env):
        return self.ev(e.body if self.truth(self.ev(e.test, env)) else e.orelse, env)

    def e_List(self, e, env):
        out = LList()
        for x in e.elts:
            if isinstance(x, ast.Starred):
                self.extend(out, self.ev(x.value, env), True)
            else:
                out.parts.append(("v", self.ev(x, env)))
        return out

    def e_Tuple(self, e, env):
        return tuple(self.ev(x, env) for x in e.elts)

    def e_Set(self, e, env):
        return tuple(self.ev(x, env) for x in e.elts)

    def e_Dict(self, e, env):
        d = LDict()
        for k, v in zip(e.keys, e.values):
            if k is None:
                o = self.ev(v, env)
                if not isinstance(o, LDict) or o.base:
                    raise Undecided("** of a symbol")
                d.entries += [list(x) for x in o.entries]
            else:
                d.entries.append([self.ev(k, env), self.ev(v, env), None])
        return d

    def e_Lambda(self, e, env):
        f = Fn(e, env, self.mod_of(env))
        f.defaults = [self.ev(d, env) for d in e.args.defaults]
        return f

    def e_JoinedStr(self, e, env):
        out = []
        for v in e.values:
            if isinstance(v, ast.Constant):
                out.append(v.value)
            else:
                spec = ""
                if v.format_spec is not None:
                    spec = self.ev(v.format_spec, env)
                    if not isinstance(spec, str):
                        spec = "?"
                out += self.fmt_piece(spec, self.ev(v.value, env))
        return mkstr(out)

    def e_ListComp(self, e, env):
        return self.comp(e, env, lambda en: self.ev(e.elt, en))

    def e_GeneratorExp(self, e, env):
        return self.comp(e, env, lambda en: self.ev(e.elt, en))

    def e_SetComp(self, e, env):
        return self.comp(e, env, lambda en: self.ev(e.elt, en))

    def e_DictComp(self, e, env):
        l = self.comp(e, env, lambda en: (self.ev(e.key, en), self.ev(e.value, en)))
        return self.to_dict(l)

    def comp(self, e, env, f):
        out = LList()

        def go(gs, en):
            if not gs:
                self.append(out, f(en))
                return
            g = gs[0]
            for seg in self.iterate(self.ev(g.iter, en)):
                e2 = Env(en, en.mod)

                def one(v, e2=e2, g=g):
                    self.assign(g.target, v, e2)
                    for c in g.ifs:
                        if not self.truth(self.ev(c, e2)):
                            return
                    go(gs[1:], e2)
                if seg[0] == "v":
                    one(seg[1])
                else:
                    self.push(seg[1])
                    try:
                        one(seg[2])
                    finally:
                        self.pop()
        go(e.generators, env)
        return out

    def e_Yield(self, e, env):
        fe = env
        while fe is not None and not hasattr(fe, "gen"):
            fe = fe.parent
        self.append(fe.gen, self.ev(e.value, env) if e.value is not None else None)

    def e_YieldFrom(self, e, env):
        fe = env
        while fe is not None and not hasattr(fe, "gen"):
            fe = fe.parent
        self.extend(fe.gen, self.ev(e.value, env))

    def e_NamedExpr(self, e, env):
        v = self.ev(e.value, env)
        self.assign(e.target, v, env)
        return v

    # -- containers
    def within(self, o):
        """The loops entered since a container was made."""
        b = o.born
        n = 0
        while n < len(b) and n < len(self.loops) and b[n] is self.loops[n]:
            n += 1
        return self.loops[n:]

    def push(self, src):
        if src in self.loops:
            raise Undecided("a loop inside a loop over the same sequence")
        self.loops.append(src)
        self.loop_count += 1
        self.loop_ids.append(self.loop_count)
        LOOPS[0] = tuple(self.loops)

    def pop(self):
        self.loops.pop()
        self.loop_ids.pop()
        LOOPS[0] = tuple(self.loops)

    def append(self, l, v):
        """Appends v in the loops active since the list was made."""
        if getattr(l, "frozen", False):
            raise Undecided("append to a list")
        src = self.within(l)
        if not src:
            l.parts.append(("v", v))
            return
        p = ("star", src[-1], v)
        for s in reversed(src[:-1]):
            p = ("star", s, ("splice", [p]))
        l.parts.append(p)

    def extend(self, l, v, literal=False):
        for seg in self.iterate(v):
            src = self.within(l) if not literal else []
            if src:
                raise Undecided("extending a list in a loop")
            l.parts.append(seg if seg[0] == "v" else ("star", seg[1], seg[2]))

    def iterate(self, v):
        """Segments: ("v", value) or ("star", source, value of an arbitrary element)."""
        if isinstance(v, LList):
            return [p if p[0] == "v" else ("star", p[1], p[2]) for p in v.parts]
        if isinstance(v, tuple):
            return [("v", x) for x in v]
        if isinstance(v, str):
            return [("v", x) for x in v]
        if isinstance(v, LDict):
            if v.base:
                return [("star", mk("keys", v.name), mk("elem", mk("keys", v.name)))] + [("v", e[0]) for e in v.entries if e[2] is None]
            return [("v", e[0]) if e[2] is None else ("star", e[2], e[0]) for e in v.entries]
        if isinstance(v, Term):
            if v.op == "range" and len(v.a) == 2 and v.a[0] == 0 and v.a[1] in self.lens:
                out, n = [], 0
                for p in self.lens[v.a[1]]:
                    if p[0] == "v":
                        out.append(("v", n))
                        n = arith("+", n, 1) if isinstance(n, int) else mk("bin", "+", n, 1)
                    else:
                        out.append(("star", p[1], mk("pos", p[1]) if n == 0 else mk("bin", "+", n, mk("pos", p[1]))))
                        n = arith("+", n, mk("len", p[1])) if n != 0 else mk("len", p[1])
                return out
            if v.op == "range":
                return [("star", v, mk("bin", "+", v.a[0], mk("pos", v)) if v.a[0] != 0 else mk("pos", v))]
            if v.op == "call" and v.a[0].op == "attr" and v.a[1] and isinstance(v.a[1][0], Term) \
                    and (v.a[0].a[1].startswith("bulk_") or v.a[0].a[1] in POINTWISE):
                f = mk("attr", v.a[0].a[0], v.a[0].a[1][5:] if v.a[0].a[1].startswith("bulk_") else v.a[0].a[1])
                l = v.a[1][0]
                ps = l.a if l.op == "list" else [("star", l, mk("elem", l))]
                return [p[:-1] + (mk("call", f, (p[-1],) + v.a[1][1:], v.a[2]),) for p in ps]
            return [("star", v, mk("elem", v))]
        if isinstance(v, Obj):
            f, _ = v.cls.find("__iter__")
            if f:
                return self.iterate(self.call(Bound(v, f), [], {}))
        if v is None:
            raise PyRaise("TypeError")
        raise Undecided("iteration over %s" % show(v))

    def item(self, t, k):
        """t[k] for a term t."""
        if isinstance(k, Term) and k.op == "pos":
            if k.a[0] is t:
                return mk("elem", t)
            r = self.pointwise(t, k.a[0])
            if r is not None:
                return r
        if t.op == "call" and (isinstance(k, Term) or type(k) is int):
            ps = self.iterate(t)
            if not (len(ps) == 1 and ps[0][0] == "star" and ps[0][1] is t):
                l = LList(ps)
                r = self.getitem(l, k)
                if not (isinstance(r, Term) and r.op == "at" and r.a[0] is freezable(l)):
                    return r
        if isinstance(k, Term) and k.op == "elem":
            pass
        return mk("item", t, freezable(k))

    def pointwise(self, t, src):
        """Element, at the current position of src, of a list the library
        calculates for the list src: what it calculates for the element alone
        (that this is so is decided by C07 and C25)."""
        if t.op == "call" and t.a[0].op == "attr" and len(t.a[1]) >= 1 and t.a[1][0] is src:
            name = t.a[0].a[1]
            if name.startswith("bulk_"):
                name = name[5:]
            return mk("call", mk("attr", t.a[0].a[0], name), (mk("elem", src),) + t.a[1][1:], t.a[2])
        return None

    def getitem(self, o, k):
        if isinstance(o, LList):
            if isinstance(k, int):
                if o.plain():
                    try:
                        return o.parts[k][1]
                    except IndexError:
                        raise PyRaise("IndexError")
                if k >= 0 and all(p[0] == "v" for p in o.parts[:k + 1]) and len(o.parts) > k:
                    return o.parts[k][1]
                if k < 0 and len(o.parts) >= -k and all(p[0] == "v" for p in o.parts[k:]):
                    return o.parts[k][1]
                if len(o.parts) == 1:
                    return mk("at", freezable(o), k)
                return mk("at", freezable(o), k)
            if isinstance(k, Term) and len(o.parts) > 1:
                n = 0
                for p in o.parts:
                    if p[0] == "v":
                        if n is k:
                            return p[1]
                        n = arith("+", n, 1) if isinstance(n, int) else mk("bin", "+", n, 1)
                    else:
                        if k is (mk("pos", p[1]) if n == 0 else mk("bin", "+", n, mk("pos", p[1]))):
                            return p[2]
                        n = arith("+", n, mk("len", p[1])) if n != 0 else mk("len", p[1])
            if isinstance(k, Term) and k.op == "pos" and len(o.parts) == 1 and o.parts[0][0] == "star":
                if o.parts[0][1] is k.a[0]:
                    return o.parts[0][2]
            if isinstance(k, Term):
                return mk("at", freezable(o), k)
            raise PyRaise("TypeError")
        if isinstance(o, tuple):
            if isinstance(k, int):
                try:
                    return o[k]
                except IndexError:
                    raise PyRaise("IndexError")
            return mk("at", freezable(o), k)
        if isinstance(o, str) and isinstance(k, int):
            try:
                return o[k]
            except IndexError:
                raise PyRaise("IndexError")
        if isinstance(o, LDict):
            v = self.dict_get(o, k, MISSING)
            if v is MISSING:
                raise PyRaise("KeyError", k)
            return v
        if isinstance(o, Term):
            return self.item(o, k)
        if o is None:
            raise PyRaise("TypeError")
        if isinstance(o, Obj):
            f, _ = o.cls.find("__getitem__")
            if f:
                return self.call(Bound(o, f), [k], {})
        raise Undecided("element of %s" % show(o))

    def setitem(self, o, k, v):
        if isinstance(o, LDict):
            self.dict_set(o, k, v)
            return
        if isinstance(o, LList) and isinstance(k, int) and o.plain() and not self.loops:
            try:
                o.parts[k] = ("v", v)
            except IndexError:
                raise PyRaise("IndexError")
            return
        if isinstance(o, Obj):
            f, _ = o.cls.find("__setitem__")
            if f:
                self.call(Bound(o, f), [k, v], {})
                return
        raise Undecided("assignment to an element of %s" % show(o))

    def same_key(self, a, b):
        if concrete(a) and concrete(b):
            return a == b
        if freeze(a) == freeze(b):
            return True
        return False       # different symbols stand for different names

    def dict_get(self, d, k, default):
        for e in reversed(d.entries):
            if self.same_key(e[0], k):
                return e[1]
            if concrete(e[0]) != concrete(k) and isinstance(k, (Term, Str)) and e[2] is None and isinstance(e[0], (str, int)) and d.base is None:
                if self.equal(k, e[0]):
                    return e[1]
        if d.base is not None:
            return d.base(self, d, k, default)
        return default

    def dict_set(self, d, k, v):
        src = self.within(d)
        for e in d.entries:
            if self.same_key(e[0], k):
                e[1] = v
                return
        if len(src) > 1:
            raise Undecided("a dictionary filled in nested loops")
        d.entries.append([k, v, src[0] if src else None])

    def dict_pop(self, d, k, *default):
        for i, e in enumerate(d.entries):
            if self.same_key(e[0], k):
                del d.entries[i]
                return e[1]
        if d.base is not None:
            raise Undecided("removal from a symbolic dictionary")
        if default:
            return default[0]
        raise PyRaise("KeyError", k)

    def to_dict(self, l):
        d = LDict()
        for seg in self.iterate(l):
            kv = seg[-1]
            k, v = self.unpack(kv, 2)
            if seg[0] == "v":
                self.dict_set(d, k, v)
            else:
                d.entries.append([k, v, seg[1]])
        return d

    # -- attributes
    def clsname(self, c):
        return c.name if isinstance(c, (Cls, Builtin)) else show(c)

    def getattr(self, o, name):
        if isinstance(o, Obj):
            if name in o.attrs:
                return o.attrs[name]
            v, c = o.cls.find(name)
            if c is not None:
                if isinstance(v, Fn):
                    if getattr(v, "deco", None) == "staticmethod":
                        return v
                    if getattr(v, "deco", None) == "classmethod":
                        return Bound(o.cls, v)
                    if getattr(v, "deco", None) == "property":
                        return self.call(v, [o], {})
                    return Bound(o, v)
                return v
            if name == "__class__":
                return o.cls
            if o.sym is not None:
                h = self.registry.get("attr")
                if h:
                    v = h(self, o, name)
                    if v is not MISSING:
                        o.attrs[name] = v
                        return v
                v = mk("attr", o.sym, name)
                o.attrs[name] = v
                return v
            h = getattr(self, "extern_method", None)
            raise PyRaise("AttributeError", name)
        if isinstance(o, Cls):
            v, c = o.find(name)
            if c is not None:
                if isinstance(v, Fn) and getattr(v, "deco", None) == "classmethod":
                    return Bound(o, v)
                return v
            if name == "__name__":
                return o.name
            raise PyRaise("AttributeError", name)
        if isinstance(o, Super):
            v, c = o.cls, None
            start = o.obj.cls if isinstance(o.obj, Obj) else o.obj
            v, c = start.find(name, o.cls)
            if c is None:
                if name == "__init__":
                    return Builtin("object.__init__", lambda I, a, k: None)
                return Builtin("object." + name, lambda I, a, k: None)
            return Bound(o.obj, v)
        if isinstance(o, Mod):
            if name in o.ns:
                return o.ns[name]
            raise PyRaise("AttributeError", name)
        if isinstance(o, Term):
            if hasattr(self, "term_attr"):
                v = self.term_attr(o, name)
                if v is not MISSING:
                    return v
            return mk("attr", o, name)
        if isinstance(o, (LList, LDict, str, Str, tuple, int, float)):
            m = getattr(self, "m_%s_%s" % ({LList: "list", LDict: "dict", str: "str", Str: "str", tuple: "tuple"}.get(type(o), "num"), name), None)
            if m is None:
                if isinstance(o, (str, Str)):
                    return Builtin("str." + name, lambda I, a, k: I.str_method(o, name, a))
                raise Undecided("%s.%s" % (type(o).__name__, name))
            return Builtin(name, lambda I, a, k: m(o, *a, **k))
        if o is None:
            raise PyRaise("AttributeError", "None has no attribute " + name)
        if hasattr(o, "pyattr"):
            return o.pyattr(self, name)
        raise Undecided("attribute %s of %s" % (name, show(o)))

    def setattr(self, o, name, v):
        if isinstance(o, Obj):
            o.attrs[name] = v
        elif isinstance(o, (Cls, Mod)):
            o.ns[name] = v
        elif o is None:
            raise PyRaise("AttributeError")
        else:
            self.effect("setattr", o, name, v)

    # -- methods of builtin values
    def m_list_append(self, o, v):
        self.append(o, v)

    def m_list_extend(self, o, v):
        self.extend(o, v)

    def m_list_insert(self, o, i, v):
        if self.within(o) or not isinstance(i, int) or not o.plain():
            raise Undecided("insert")
        vs = o.values()
        vs.insert(i, v)
        o.parts = [("v", x) for x in vs]

    def m_list_pop(self, o, i=-1):
        if self.within(o):
            # inside a repetition: what this turn of it put there
            if i == -1 and o.parts and o.parts[-1][0] == "star" and o.parts[-1][1] is self.loops[-1]:
                return o.parts.pop()[2]
            raise Undecided("pop in a loop")
        if not o.parts:
            raise PyRaise("IndexError")
        if i == -1:
            if o.parts[-1][0] != "v":
                raise Undecided("pop from a list of unknown length")
            return o.parts.pop()[1]
        if isinstance(i, int) and i >= 0 and all(p[0] == "v" for p in o.parts[:i + 1]) and i < len(o.parts):
            return o.parts.pop(i)[1]
        raise Undecided("pop")

    def m_list_copy(self, o):
        return LList(o.parts)

    def m_list_clear(self, o):
        o.parts = []

    def m_list_sort(self, o, **kw):
        self.sort(o, kw)

    def sort(self, o, kw):
        if kw:
            raise Undecided("sort with a key")
        if o.plain() and all(isinstance(x, str) for x in o.values()):
            o.parts = [("v", x) for x in sorted(o.values())]
        elif o.plain() and all(isinstance(x, (int, float)) for x in o.values()):
            o.parts = [("v", x) for x in sorted(o.values())]
        else:
            o.parts = [p if p[0] == "v" else ("star", mk("sorted", p[1]) if not (isinstance(p[1], Term) and p[1].op == "sorted") else p[1], p[2]) for p in o.parts]

    def m_list_reverse(self, o):
        if not o.plain():
            o.parts = [p if p[0] == "v" else ("star", mk("reversed", p[1]), p[2]) for p in reversed(o.parts)]
        else:
            o.parts.reverse()

    def m_list_index(self, o, v):
        if o.plain():
            for i, x in enumerate(o.values()):
                if self.equal(x, v):
                    return i
            raise PyRaise("ValueError")
        raise Undecided("index")

    def m_dict_get(self, o, k, d=None):
        return self.dict_get(o, k, d)

    def m_dict_setdefault(self, o, k, d=None):
        v = self.dict_get(o, k, MISSING)
        if v is MISSING:
            self.dict_set(o, k, d)
            return d
        return v

    def m_dict_update(self, o, other=None, **kw):
        if other is not None:
            if not isinstance(other, LDict) or other.base:
                raise Undecided("update")
            for k, v, s in other.entries:
                self.dict_set(o, k, v)
        for k, v in kw.items():
            self.dict_set(o, k, v)

    def m_dict_pop(self, o, k, *d):
        return self.dict_pop(o, k, *d)

    def m_dict_copy(self, o):
        d = LDict(o.base, o.name)
        d.entries = [list(e) for e in o.entries]
        return d

    def m_dict_keys(self, o):
        return LList(self.iterate(o))

    def m_dict_values(self, o):
        l = LList([("v", e[1]) if e[2] is None else ("star", e[2], e[1]) for e in o.entries])
        if o.base:
            v = o.base(self, o, mk("elem", mk("keys", o.name)), "element")
            l.parts.insert(0, ("star", mk("keys", o.name), v))
        return l

    def m_dict_items(self, o):
        if o.base:
            raise Undecided("items of a symbolic dictionary")
        return LList([("v", (e[0], e[1])) if e[2] is None else ("star", e[2], (e[0], e[1])) for e in o.entries])

    def m_dict_clear(self, o):
        o.entries = []
        o.base = None

    def m_tuple_index(self, o, v):
        for i, x in enumerate(o):
            if self.equal(x, v):
                return i
        raise PyRaise("ValueError")

    def str_method(self, o, name, a):
        if isinstance(o, str) and all(concrete(x) for x in a):
            try:
                r = getattr(o, name)(*a)
            except (AttributeError, TypeError, ValueError, IndexError) as e:
                raise PyRaise(type(e).__name__)
            return LList.of(r) if isinstance(r, list) else r
        raise Undecided("str.%s" % name)

    def m_str_format(self, o, *args, **kw):
        return self.format(o, list(args), kw)

    def m_str_join(self, o, l):
        segs = self.iterate(l)
        out = []
        for i, s in enumerate(segs):
            if s[0] == "v":
                if out:
                    out.append(o)
                out += pieces_of(s[1])
            else:
                out.append(("star", s[1], tuple(pieces_of(o) if o != "" else []) + tuple(pieces_of(s[2]))))
        return mkstr(out)

    def format(self, f, args, kw):
        if not isinstance(f, str):
            raise Undecided("format of a symbol")
        import string
        out = []
        n = 0
        for lit, field, spec, conv in string.Formatter().parse(f):
            out.append(lit)
            if field is None:
                continue
            if field == "":
                v = MISSING if n >= len(args) else args[n]
                n += 1
            elif field.isdigit():
                v = args[int(field)] if int(field) < len(args) else MISSING
            elif field.isidentifier():
                v = kw.get(field, MISSING)
            else:
                raise Undecided("format field " + field)
            if v is MISSING:
                raise PyRaise("IndexError")
            if isinstance(v, tuple) and v and v[0] == "*":
                raise Undecided("* in format")
            if spec and "{" in spec:
                spec = "?"
            out += self.fmt_piece(spec, v)
        return mkstr(out)

    def fmt_piece(self, spec, v):
        if v is None and spec and spec != "s":
            raise PyRaise("TypeError")
        if isinstance(v, str) and spec in ("", "s"):
            return [v]
        if spec in ("", "s") and isinstance(v, Str):
            return list(v.pieces)
        if isinstance(v, int) and not isinstance(v, bool) and spec in ("", "d"):
            return [str(v)]
        if isinstance(v, Term) and v.op == "phi" and spec == "":
            return [("phi", v)]
        return [("fmt", spec, v)]

    # -- calls
    def call(self, f, args, kw):
        if isinstance(f, Bound):
            return self.call(f.fn, [f.self_] + list(args), kw)
        if isinstance(f, Builtin):
            return f.f(self, args, kw)
        if isinstance(f, Fn):
            return self.run(f, args, kw)
        if isinstance(f, Cls):
            o = Obj(f)
            init, c = f.find("__init__")
            if init is not None:
                self.call(init, [o] + list(args), kw)
            elif args and c is None and not any(isinstance(b, Term) for b in f.bases):
                raise PyRaise("TypeError")
            return o
        if isinstance(f, Term):
            return self.extern(f, args, kw)
        if isinstance(f, Obj):
            m, _ = f.cls.find("__call__")
            if m:
                return self.call(Bound(f, m), args, kw)
            raise PyRaise("TypeError")
        if f is None:
            raise PyRaise("TypeError")
        if hasattr(f, "pycall"):
            return f.pycall(self, args, kw)
        raise Undecided("call of %s" % show(f))

    def extern(self, f, args, kw):
        if f.op == "attr" and self.kinds.get(f.a[0]) == "str" and hasattr("", f.a[1]):
            t = mk("call", f, tuple(freezable(a) for a in args), ())
            if f.a[1] in ("strip", "lstrip", "rstrip", "replace", "lower", "upper", "format", "join", "capitalize", "title", "removeprefix", "removesuffix", "expandtabs"):
                self.kinds[t] = "str"
            return t
        if hasattr(self, "extern_call"):
            v = self.extern_call(f, args, kw)
            if v is not MISSING:
                return v
        t = mk("call", f, tuple(freezable(a) for a in args), tuple(sorted((k, freezable(v)) for k, v in kw.items())))
        self.effect("call", t)
        return t

    def run(self, f, args, kw):
        self.depth += 1
        if self.depth > 60:
            raise Undecided("recursion")
        try:
            self.functions.add((f.mod.name if f.mod else "?", (f.cls.name + "." if f.cls else "") + f.name, getattr(f.node, "lineno", 0)))
            a = f.node.args
            env = Env(f.env, f.mod, f)
            names = [x.arg for x in a.posonlyargs + a.args]
            for x in args:
                if isinstance(x, tuple) and len(x) == 2 and x[0] == "*":
                    raise Undecided("a symbolic number of arguments")
            args = list(args)
            if len(args) > len(names) and a.vararg is None:
                raise PyRaise("TypeError")
            for n, v in zip(names, args):
                env.v[n] = v
            if a.vararg is not None:
                env.v[a.vararg.arg] = tuple(args[len(names):])
            extra = {}
            for k, v in kw.items():
                if k in names or k in [x.arg for x in a.kwonlyargs]:
                    if k in env.v:
                        raise PyRaise("TypeError")
                    env.v[k] = v
                elif a.kwarg is not None:
                    extra[k] = v
                else:
                    raise PyRaise("TypeError")
            if a.kwarg is not None:
                d = LDict()
                d.entries = [[k, v, None] for k, v in extra.items()]
                env.v[a.kwarg.arg] = d
            for n, v in zip(names[len(names) - len(f.defaults):], f.defaults):
                env.v.setdefault(n, v)
            for x in a.kwonlyargs:
                if x.arg not in env.v:
                    if x.arg in f.kwdefaults:
                        env.v[x.arg] = f.kwdefaults[x.arg]
                    else:
                        raise PyRaise("TypeError")
            for n in names:
                if n not in env.v:
                    raise PyRaise("TypeError", "missing argument " + n)
            if isinstance(f.node, ast.Lambda):
                return self.ev(f.node.body, env)
            if any(isinstance(x, (ast.Yield, ast.YieldFrom)) for x in own_nodes(f.node)):
                env.gen = LList()
                try:
                    self.block(f.node.body, env)
                except _Return:
                    pass
                return env.gen
            try:
                self.block(f.node.body, env)
            except _Return as r:
                return r.v
            return None
        finally:
            self.depth -= 1

    # -- builtins
    def builtins(self):
        b = {}

        def reg(name):
            def d(f):
                b[name] = Builtin(name, f)
                return f
            return d

        @reg("print")
        def _(I, a, k):
            dest = k.get("file", I.stdout)
            pieces = []
            for i, x in enumerate(a):
                if i:
                    pieces.append(k.get("sep", " ") if isinstance(k.get("sep", " "), str) else " ")
                pieces += I.fmt_piece("", x)
            I.out.append((dest, mkstr(pieces), Loops(I), k.get("end", "\n")))

        @reg("len")
        def _(I, a, k):
            v = a[0]
            if isinstance(v, LList):
                if v.plain():
                    return len(v.parts)
                n = len([p for p in v.parts if p[0] == "v"])
                t = None
                for p in v.parts:
                    if p[0] == "star":
                        x = mk("len", p[1])
                        t = x if t is None else arith("+", t, x)
                r = arith("+", t, n) if n else t
                if len(v.parts) > 1:
                    I.lens[r] = list(v.parts)
                return r
            if isinstance(v, (tuple, str)):
                return len(v)
            if isinstance(v, LDict) and not v.base and all(e[2] is None for e in v.entries):
                return len(v.entries)
            if isinstance(v, Obj):
                f, _ = v.cls.find("__len__")
                if f:
                    return I.call(Bound(v, f), [], {})
            if v is None:
                raise PyRaise("TypeError")
            return mk("len", freezable(v))

        @reg("range")
        def _(I, a, k):
            if all(isinstance(x, int) for x in a):
                if len(range(*a)) > 2000:
                    raise Undecided("a long range")
                return LList.of(range(*a))
            if len(a) == 1:
                n = a[0]
                if isinstance(n, Term) and n.op == "len":
                    return LList([("star", n.a[0], mk("pos", n.a[0]))])
                return mk("range", 0, n)
            if len(a) == 2:
                return mk("range", a[0], a[1])
            return LList([("star", mk("range", *a), mk("elem", mk("range", *a)))])

        @reg("enumerate")
        def _(I, a, k):
            out = []
            start = a[1] if len(a) > 1 else k.get("start", 0)
            n = 0
            for s in I.iterate(a[0]):
                if s[0] == "v":
                    out.append(("v", (I.binop("Add", start, n), s[1])))
                    n += 1
                else:
                    p = mk("pos", s[1])
                    out.append(("star", s[1], (p if start == 0 and n == 0 else I.binop("Add", I.binop("Add", start, n), p), s[2])))
            return LList(out)

        @reg("zip")
        def _(I, a, k):
            if len(a) == 1 and isinstance(a[0], tuple) and len(a[0]) == 2 and a[0][0] == "*":
                return Transposed(a[0][1])
            return zipped(I, a)

        @reg("map")
        def _(I, a, k):
            f = a[0]
            if len(a) > 2:
                l = zipped(I, a[1:])
                call = lambda v: I.call(f, list(v), {})
            else:
                l = a[1]
                call = lambda v: I.call(f, [v], {})
            if isinstance(l, Transposed):
                return l.map(f)
            return LList([("v", call(s[1])) if s[0] == "v" else I.in_loop(s, call) for s in I.iterate(l)])

        @reg("filter")
        def _(I, a, k):
            out = []
            for s in I.iterate(a[1]):
                if s[0] == "v":
                    if I.truth(s[1] if a[0] is None else I.call(a[0], [s[1]], {})):
                        out.append(s)
                else:
                    raise Undecided("filter of a symbolic list")
            return LList(out)

        @reg("list")
        def _(I, a, k):
            if not a:
                return LList()
            if isinstance(a[0], Term) and a[0].op != "range":
                I.kinds.setdefault(a[0], "list")
                return a[0]
            if isinstance(a[0], Transposed):
                return a[0]
            return LList(I.iterate(a[0]))

        @reg("tuple")
        def _(I, a, k):
            if not a:
                return ()
            if isinstance(a[0], LList) and a[0].plain():
                return tuple(a[0].values())
            return a[0]

        @reg("dict")
        def _(I, a, k):
            d = I.to_dict(a[0]) if a and not isinstance(a[0], LDict) else I.m_dict_copy(a[0]) if a else LDict()
            for n, v in k.items():
                I.dict_set(d, n, v)
            return d

        @reg("set")
        def _(I, a, k):
            return b["list"].f(I, a, k)

        @reg("sorted")
        def _(I, a, k):
            l = LList(I.iterate(a[0]))
            I.sort(l, k)
            return l

        @reg("reversed")
        def _(I, a, k):
            l = LList(I.iterate(a[0]))
            I.m_list_reverse(l)
            return l

        @reg("sum")
        def _(I, a, k):
            t = a[1] if len(a) > 1 else 0
            for s in I.iterate(a[0]):
                t = I.binop("Add", t, s[1]) if s[0] == "v" else I.binop("Add", t, mk("sum", s[1], freezable(s[2])))
            return t

        @reg("max")
        def _(I, a, k):
            return minmax(I, "maximum", a, k)

        @reg("min")
        def _(I, a, k):
            return minmax(I, "minimum", a, k)

        @reg("any")
        def _(I, a, k):
            for s in I.iterate(a[0]):
                if s[0] == "v":
                    if I.truth(s[1]):
                        return True
                elif I.case.decide(("any", s[1], freeze(s[2]))):
                    return True
            return False

        @reg("all")
        def _(I, a, k):
            for s in I.iterate(a[0]):
                if s[0] == "v":
                    if not I.truth(s[1]):
                        return False
                elif not I.case.decide(("all", s[1], freeze(s[2]))):
                    return False
            return True

        @reg("isinstance")
        def _(I, a, k):
            o, c = a
            cs = list(c) if isinstance(c, tuple) else [c]
            return any(I.isinstance(o, x) for x in cs)

        @reg("type")
        def _(I, a, k):
            o = a[0]
            if isinstance(o, Obj):
                return o.cls
            if isinstance(o, LList):
                return b["list"]
            if isinstance(o, LDict):
                return b["dict"]
            if isinstance(o, tuple):
                return b["tuple"]
            if isinstance(o, (str, Str)):
                return b["str"]
            if isinstance(o, bool):
                return b["bool"]
            if isinstance(o, int):
                return b["int"]
            if isinstance(o, float):
                return b["float"]
            if isinstance(o, Term):
                kd = I.kinds.get(o)
                if kd == "list":
                    return b["list"]
                if kd == "str":
                    return b["str"]
                if kd in ("number", "float"):
                    return b["float"]
                if isinstance(kd, (Cls, Term)):
                    return kd
                return mk("typeof", o)
            return mk("typeof", freezable(o)) if o is not None else mk("sym", "NoneType")

        def num(name, f):
            def g(I, a, k):
                if not a:
                    return f(0)
                v = a[0]
                if isinstance(v, (int, float)) or isinstance(v, str):
                    try:
                        return f(v)
                    except ValueError:
                        raise PyRaise("ValueError")
                if v is None:
                    raise PyRaise("TypeError")
                if isinstance(v, Term) and v.op in ("int", name):
                    if v.op == name:
                        return v
                t = mk(name, freezable(v))
                I.kinds[t] = "number"
                return t
            b[name] = Builtin(name, g)
        num("int", int)
        num("float", float)

        @reg("str")
        def _(I, a, k):
            v = a[0] if a else ""
            if isinstance(v, (str, Str)):
                return v
            if isinstance(v, Term) and I.kinds.get(v) == "str":
                return v
            return mkstr(I.fmt_piece("", v))

        @reg("bool")
        def _(I, a, k):
            return I.truth(a[0])

        @reg("abs")
        def _(I, a, k):
            return abs(a[0]) if isinstance(a[0], (int, float)) else mk("abs", a[0])

        @reg("hasattr")
        def _(I, a, k):
            try:
                I.getattr(a[0], a[1])
                return True
            except PyRaise:
                return False

        @reg("getattr")
        def _(I, a, k):
            if not isinstance(a[1], str):
                raise Undecided("getattr with a symbolic name")
            try:
                return I.getattr(a[0], a[1])
            except PyRaise:
                if len(a) > 2:
                    return a[2]
                raise

        @reg("setattr")
        def _(I, a, k):
            if not isinstance(a[1], str):
                raise Undecided("setattr with a symbolic name")
            I.setattr(a[0], a[1], a[2])

        @reg("callable")
        def _(I, a, k):
            return isinstance(a[0], (Fn, Bound, Builtin, Cls))

        @reg("iter")
        def _(I, a, k):
            return a[0]

        @reg("next")
        def _(I, a, k):
            segs = I.iterate(a[0])
            if segs and segs[0][0] == "v":
                return segs[0][1]
            if segs:
                return mk("first", segs[0][1], freezable(segs[0][2]))
            if len(a) > 1:
                return a[1]
            raise PyRaise("StopIteration")

        @reg("open")
        def _(I, a, k):
            mode = a[1] if len(a) > 1 else k.get("mode", "r")
            return mk("file", freezable(a[0]), mode if isinstance(mode, str) else freezable(mode))

        for n in ("id", "hex", "repr", "round", "divmod", "eval", "exec", "input", "vars", "dir", "hash", "ord", "chr", "pow"):
            def g(I, a, k, n=n):
                t = mk(n, *[freezable(x) for x in a])
                I.effect("builtin", t) if n in ("eval", "exec", "input") else None
                return t
            b[n] = Builtin(n, g)
        b["super"] = Builtin("super", lambda I, a, k: Super(a[1], a[0]))
        b["object"] = Cls("object", [], None)
        b["staticmethod"] = Builtin("staticmethod", lambda I, a, k: setdeco(a[0], "staticmethod"))
        b["classmethod"] = Builtin("classmethod", lambda I, a, k: setdeco(a[0], "classmethod"))
        b["property"] = Builtin("property", lambda I, a, k: setdeco(a[0], "property"))
        for n in ("ValueError", "TypeError", "KeyError", "IndexError", "RuntimeError", "Exception", "NotImplementedError",
                  "AttributeError", "ArithmeticError", "ZeroDivisionError", "LookupError", "FileNotFoundError", "OSError", "IOError",
                  "AssertionError", "StopIteration", "OverflowError", "NameError"):
            b[n] = mk("sym", n)
        b["__name__"] = "module"
        return b

    def in_loop(self, s, f):
        if s[1] in self.loops:
            return ("star", s[1], f(s[2]))
        self.push(s[1])
        try:
            return ("star", s[1], f(s[2]))
        finally:
            self.pop()

    def isinstance(self, o, c):
        if isinstance(c, Term) and c.op == "attr" and c.a[1] == "Number":
            if isinstance(o, (int, float)):
                return True
            if not isinstance(o, Term):
                return False
            k = self.kinds.get(o)
            if k in ("number", "float"):
                return True
            if k is not None:
                return False
            for f, v in self.case.facts.items():
                if f[0] == "eq" and f[1] is o and v:
                    return isinstance(f[2], (int, float))
            return self.case.decide(("isinstance", o, "Number"))
        if isinstance(o, Obj):
            return isinstance(c, Cls) and c in o.cls.mro()
        if isinstance(c, Builtin):
            kinds = {"list": LList, "dict": LDict, "tuple": tuple, "str": (str, Str), "int": int, "float": float, "bool": bool}
            if isinstance(o, Term):
                k = self.kinds.get(o)
                if k is not None:
                    return k == c.name or (k in ("number",) and c.name in ("int", "float"))
                return self.case.decide(("isinstance", o, c.name))
            return isinstance(o, kinds.get(c.name, ()))
        if isinstance(o, Term):
            k = self.kinds.get(o)
            if isinstance(k, (Cls, Term)):
                return k is c
            if k is not None:
                return False
            return self.case.decide(("isinstance", o, self.clsname(c)))
        return False


def setdeco(f, d):
    if isinstance(f, Fn):
        f.deco = d
    return f


class Transposed:
    """zip(*lists): one list per position."""
    def __init__(self, of, fs=()):
        self.of, self.fs = of, fs

    def map(self, f):
        return Transposed(self.of, self.fs + (f,))

    def part(self, I, like, i):
        """The row for the i-th piece of a list with pieces like like."""
        parts = []
        for s in I.iterate(self.of):
            l = I.iterate(s[-1])
            if kinds_of(l) != kinds_of(like):
                raise Undecided("transposing %s" % show(s[-1]))
            parts.append(("v", l[i][-1]) if s[0] == "v" else ("star", s[1], l[i][-1]))
        r = LList(parts)
        for f in self.fs:
            r = I.call(f, [r], {})
        return r

    def row(self, I, src):
        parts = []
        for s in I.iterate(self.of):
            v = s[-1]
            if isinstance(v, LList) and len(v.parts) == 1 and v.parts[0][0] == "star" and v.parts[0][1] is src:
                x = v.parts[0][2]
            elif isinstance(v, Term):
                l = I.iterate(v)
                x = mk("elem", src) if v is src else l[0][2] if len(l) == 1 and l[0][0] == "star" and l[0][1] is src else I.item(v, mk("pos", src))
            else:
                raise Undecided("transposing %s" % show(v))
            parts.append(("v", x) if s[0] == "v" else ("star", s[1], x))
        r = LList(parts)
        for f in self.fs:
            r = I.call(f, [r], {})
        return r


# what the library calculates for each element of a list it is given
POINTWISE = ("get_lambda", "pCollapse", "pDemolition", "pRepair")


def kinds_of(l):
    return [(p[0], p[1] if p[0] == "star" else None) for p in l]


def zipped(I, a):
    segs = []
    for x in a:
        segs.append(x if isinstance(x, Transposed) else I.iterate(x))
    n = None
    if not segs:
        return LList()
    if all(not isinstance(s, Transposed) and all(p[0] == "v" for p in s) for s in segs):
        m = min(len(s) for s in segs)
        return LList([("v", tuple(s[i][1] for s in segs)) for i in range(m)])
    lists = [s for s in segs if not isinstance(s, Transposed)]
    if lists and len(lists[0]) > 1 and all(kinds_of(s) == kinds_of(lists[0]) for s in lists):
        return LList([p[:-1] + (tuple(s.part(I, lists[0], i) if isinstance(s, Transposed) else s[i][-1] for s in segs),)
                      for i, p in enumerate(lists[0])])
    src = None
    for s in segs:
        if not isinstance(s, Transposed):
            if len(s) != 1 or s[0][0] != "star":
                raise Undecided("zip of lists of different kinds")
            if src is None:
                src = s[0][1]
    if src is None:
        raise Undecided("zip")
    vals = []
    for s in segs:
        if isinstance(s, Transposed):
            vals.append(s.row(I, src))
        elif s[0][1] is src:
            vals.append(s[0][2])
        elif s[0][2] is mk("elem", s[0][1]):
            vals.append(I.item(s[0][1], mk("pos", src)))
        else:
            raise Undecided("zip of different sequences")
    return LList([("star", src, tuple(vals))])


def minmax(I, op, a, k):
    if len(a) > 1:
        if all(isinstance(x, (int, float)) for x in a):
            return max(a) if op == "maximum" else min(a)
        return mk(op + "of", *sorted((freezable(x) for x in a), key=repr))
    segs = I.iterate(a[0])
    if all(s[0] == "v" and isinstance(s[1], (int, float)) for s in segs):
        vs = [s[1] for s in segs]
        if not vs:
            if "default" in k:
                return k["default"]
            raise PyRaise("ValueError")
        return max(vs) if op == "maximum" else min(vs)
    if len(segs) == 1 and segs[0][0] == "star":
        return mk(op, segs[0][1], freezable(segs[0][2]), k.get("default"))
    if len(segs) == 2 and segs[0][0] == "v" and segs[1][0] == "star":
        return mk(op, segs[1][1], freezable(segs[1][2]), segs[0][1])
    return mk(op + "of", freezable(a[0]))


def assigned(body):
    out = set()
    for b in body:
        for n in ast.walk(b):
            if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)):
                out.add(n.id)
    return sorted(out)


def own_nodes(fn):
    st = list(fn.body)
    while st:
        n = st.pop()
        yield n
        if isinstance(n, (ast.FunctionDef, ast.Lambda, ast.ClassDef)):
            continue
        st += list(ast.iter_child_nodes(n))


def pieces_of(v):
    if isinstance(v, str):
        return [v]
    if isinstance(v, Str):
        return list(v.pieces)
    if isinstance(v, Term) and v.op == "phi":
        return [("phi", v)]
    return [("fmt", "", v)]


class Frozen:
    pass


_boxes = {}


def freezable(v):
    """A value as the argument of a term: contents as they are now."""
    if isinstance(v, LList):
        return mk("list", *[(p[0],) + tuple(freezable(x) if not (isinstance(x, tuple) and x and x[0] == "splice") else
                                            mk("splice", freezable(LList(x[1]))) for x in p[1:]) for p in v.parts])
    if isinstance(v, tuple):
        return mk("tuple", *[freezable(x) for x in v])
    if isinstance(v, LDict):
        return mk("dict", *[(freezable(k), freezable(x), s) for k, x, s in v.entries] + ([v.name] if v.base else []))
    if isinstance(v, Str):
        return mk("str", _tup(v.pieces))
    if isinstance(v, Obj) and v.sym is not None:
        return v.sym
    if isinstance(v, (Obj, Cls, Fn, Bound, Builtin, Mod, Transposed)):
        _boxes[id(v)] = v      # keep alive: terms compare by identity
        return v
    return v


def _tup(ps):
    return tuple(p if isinstance(p, str) else tuple(_tup(x) if isinstance(x, tuple) else x if isinstance(x, str) else freezable(x) for x in p) for p in ps)


def subst(v, m):
    if isinstance(v, Term):
        if v in m:
            return m[v]
        return mk(v.op, *[subst(x, m) for x in v.a])
    if isinstance(v, tuple):
        return tuple(subst(x, m) for x in v)
    return v


def arith(op, a, b):
    """Sums and products in a canonical order; a few identities."""
    num = lambda x: isinstance(x, (int, float)) and not isinstance(x, bool)
    if num(a) and num(b):
        return {"+": a + b, "-": a - b, "*": a * b}.get(op) if op in "+-*" else mk("bin", op, a, b)
    if op == "+" and num(a) and a == 0:
        return b
    if op in ("+", "-") and num(b) and b == 0:
        return a
    if op == "*" and num(a) and a == 1:
        return b
    if op in ("*", "/") and num(b) and b == 1:
        return a
    return mk("bin", op, a, b)
