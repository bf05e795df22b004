"""The script language: its grammar, the parse trees it admits with symbols for
the tokens, and the interpreter's answer to each (the listener's methods, in the
order a walk of the tree calls them)."""
import os, re
from .pyinterp import *
from . import pyinterp

SRC = os.path.join(REPO, "src")


# ---------------------------------------------------------------- grammar

class G:
    """Grammar node: kind 'tok'|'rule'|'seq'|'alt'|'opt'|'star'."""
    def __init__(self, kind, *a):
        self.kind, self.a = kind, a


def tokens_of(text):
    text = re.sub(r"//[^\n]*|/\*.*?\*/", " ", text, flags=re.S)
    return re.findall(r"'(?:\\.|[^'\\])*'|[A-Za-z_]\w*|->|[:;|()?*+=~.\[\],{}#@]|\d+", text)


def parse_grammar(path):
    t = tokens_of(open(path).read())
    i = t.index(";") + 1           # grammar header
    rules = {}
    while i < len(t):
        if t[i] == "options":
            while t[i] != "}":
                i += 1
            i += 1
            continue
        name = t[i]
        if i + 1 >= len(t) or t[i + 1] != ":":
            raise Undecided("grammar near %r" % t[i:i + 4])
        node, i = p_alt(t, i + 2)
        if t[i] != ";":
            raise Undecided("grammar rule " + name)
        rules[name] = node
        i += 1
    return rules


def p_alt(t, i):
    alts = []
    while True:
        seq = []
        while t[i] not in ("|", ")", ";"):
            n, i = p_el(t, i)
            if n is not None:
                seq.append(n)
        alts.append(G("seq", *seq) if len(seq) != 1 else seq[0])
        if t[i] == "|":
            i += 1
            continue
        break
    return (alts[0] if len(alts) == 1 else G("alt", *alts)), i


def p_el(t, i):
    x = t[i]
    if x == "(":
        n, i = p_alt(t, i + 1)
        i += 1
    elif x == "#":
        return None, i + 2
    elif re.match(r"[A-Za-z_]", x):
        if t[i + 1] in ("=", ) or (t[i + 1] == "+" and t[i + 2] == "="):
            i += 2 if t[i + 1] == "=" else 3
            return p_el(t, i)
        n = G("tok", x) if x[0].isupper() else G("rule", x)
        i += 1
    else:
        raise Undecided("grammar element %r" % x)
    while i < len(t) and t[i] in "?*+":
        s = t[i]
        i += 1
        n = G("opt", n) if s == "?" else G("star", n) if s == "*" else G("seq", n, G("star", n))
        if i < len(t) and t[i] == "?":     # non-greedy
            i += 1
    return n, i


def lexer_literals(path):
    text = open(path).read()
    out = {}
    for m in re.finditer(r"^\s*([A-Z]\w*)\s*:\s*'((?:\\.|[^'\\])*)'\s*(?:->[^;]*)?;", text, re.M):
        out[m.group(1)] = m.group(2).replace("\\'", "'")
    return out


def freq(n, sym):
    if n.kind in ("tok", "rule"):
        return 1 if n.a[0] == sym else 0
    if n.kind == "seq":
        return sum(freq(x, sym) for x in n.a)
    if n.kind == "alt":
        return max(freq(x, sym) for x in n.a)
    if n.kind == "opt":
        return freq(n.a[0], sym)
    return 2 if freq(n.a[0], sym) else 0


class Grammar:
    def __init__(self):
        self.rules = parse_grammar(os.path.join(SRC, "slatParser.g4"))
        self.lit = lexer_literals(os.path.join(SRC, "slatLexer.g4"))

    def symbols(self, rule):
        out = []

        def go(n):
            if n.kind in ("tok", "rule"):
                if n.a[0] not in out:
                    out.append(n.a[0])
            else:
                for x in n.a:
                    go(x)
        go(self.rules[rule])
        return out


# ---------------------------------------------------------------- derivations

# a derivation: ("tok", name) | ("rule", name, [children]) | ("star", [children])

class Derive:
    """The trees of a rule: every combination of the rule's own choices with its
    parts in their first form, and each other form of each part; all
    combinations where there are few."""
    def __init__(self, g, first=None, product=24):
        self.g, self.first, self.product = g, first or {}, product
        self.memo = {}
        self.busy, self.inner = set(), set()

    def rule(self, name):
        if name in self.memo:
            return self.memo[name]
        if name in self.busy:
            # recursive form: once, with what is not recursive inside
            if name in self.inner:
                return []
            self.inner.add(name)
            memo, self.memo = self.memo, {}
            vs = [("rule", name, c) for c in self.node(self.g.rules[name])]
            self.memo = memo
            self.inner.discard(name)
            return vs
        self.busy.add(name)
        vs = [("rule", name, c) for c in self.node(self.g.rules[name])]
        self.busy.discard(name)
        f = self.first.get(name)
        if f is not None:
            vs.sort(key=lambda v: 0 if f(v) else 1)
        self.memo[name] = vs
        return vs

    def node(self, n):
        """Lists of children."""
        if n.kind == "tok":
            return [[("tok", n.a[0])]]
        if n.kind == "rule":
            return [[v] for v in self.rule(n.a[0])]
        if n.kind == "alt":
            return [c for x in n.a for c in self.node(x)]
        if n.kind == "opt":
            return self.node(n.a[0]) + [[]]
        if n.kind == "star":
            return [[("star", c)] for c in self.node(n.a[0])]
        parts = [self.node(x) for x in n.a]
        if any(not p for p in parts):
            return []
        total = 1
        for p in parts:
            total *= len(p)
        if total <= self.product:
            out = [[]]
            for p in parts:
                out = [o + c for o in out for c in p]
            return out
        # own choices (options and alternatives of this rule) in full, forms of the parts one at a time
        own = [self.own(x, p) for x, p in zip(n.a, parts)]
        out, seen = [], set()

        def add(c):
            k = repr(c)
            if k not in seen:
                seen.add(k)
                out.append(c)
        combos = [[]]
        for p in own:
            combos = [o + [c] for o in combos for c in p]
        for c in combos:
            add([x for y in c for x in y])
        base = [p[0] for p in parts]
        for i, p in enumerate(parts):
            for c in p:
                add([x for j, y in enumerate(base) for x in (c if j == i else y)])
        return out

    def own(self, n, forms):
        if n.kind == "opt":
            return [forms[0], []]
        if n.kind == "alt":
            return [self.node(x)[0] for x in n.a if self.node(x)]
        return forms[:1]


# ---------------------------------------------------------------- trees

class Tok:
    def __init__(self, tree, name, path):
        self.tree, self.name, self.path = tree, name, path
        l = tree.g.lit.get(name)
        if l is not None:
            self.text = l
        else:
            self.text = mk("text", name, path)

    def pyattr(self, I, name):
        if name == "getText":
            if isinstance(self.text, Term):
                I.kinds[self.text] = "str"
            return Builtin("getText", lambda I, a, k: self.text)
        if name == "symbol":
            return self
        if name == "text":
            return self.text
        if name in ("getSymbol", "getParent", "parentCtx", "getPayload", "getSourceInterval", "getChildCount", "getChild", "accept",
                    "getChildren", "setParent", "toStringTree", "depth"):
            raise Undecided("attribute %s of a token" % name)
        raise PyRaise("AttributeError", name)

    def __repr__(self):
        return "%s@%s" % (self.name, self.path)


class Ctx:
    def __init__(self, tree, rule, path):
        self.tree, self.rule, self.path, self.children = tree, rule, path, []

    def items(self, sym):
        """[("v"|"star", source, node)] of the children that are a sym."""
        out = []

        def go(cs, src):
            for c in cs:
                if c[0] == "star":
                    if src is not None:
                        raise Undecided("nested repetition in a rule")
                    go(c[2], c[1])
                elif (c[1].name if isinstance(c[1], Tok) else c[1].rule) == sym:
                    out.append(("v", None, c[1]) if src is None else ("star", src, c[1]))
        go(self.children, None)
        return out

    def one(self, sym):
        l = self.items(sym)
        return l[0][2] if l else None

    def all(self, sym):
        return [x[2] for x in self.items(sym)]

    def text(self, I=None):
        ps = []

        def go(cs):
            for c in cs:
                if c[0] == "star":
                    ps.append(("fmt", "", mk("text", "rule", self.path)))
                elif isinstance(c[1], Tok):
                    if isinstance(c[1].text, Term) and I is not None:
                        I.kinds[c[1].text] = "str"
                    ps.append(c[1].text if isinstance(c[1].text, str) else ("fmt", "", c[1].text))
                else:
                    go(c[1].children)
        go(self.children)
        if len(ps) == 1 and isinstance(ps[0], tuple):
            t = ps[0][2]
            if I is not None:
                I.kinds[t] = "str"
            return t
        return mkstr(ps)

    def pyattr(self, I, name):
        g = self.tree.g
        if name == "getText":
            return Builtin(name, lambda I, a, k: self.text(I))
        if name == "getChildCount":
            return Builtin(name, lambda I, a, k: len(self.children))
        if name in g.symbols(self.rule):
            many = freq(g.rules[self.rule], name) > 1

            def acc(I, a, k):
                l = self.items(name)
                i = a[0] if a else k.get("i")
                if not many:
                    if a or k:
                        raise PyRaise("TypeError")
                    return l[0][2] if l else None
                if i is None:
                    return LList([("v", x[2]) if x[0] == "v" else x for x in l])
                if not isinstance(i, int):
                    raise Undecided("child of symbolic number")
                vs = [x for x in l if x[0] == "v"]
                if i < len(vs):
                    return vs[i][2]
                if len(vs) < len(l):
                    raise Undecided("child in a repetition")
                return None
            return Builtin(name, acc)
        if name in ("start", "stop", "parentCtx", "exception", "children", "getChild", "getChildren", "parser", "toStringTree"):
            raise Undecided("attribute %s of a parse tree" % name)
        raise PyRaise("AttributeError", name)

    def __repr__(self):
        return "%s@%s" % (self.rule, self.path)


class Tree:
    """A parse tree made from a derivation; names of tokens by their place in it."""
    def __init__(self, g, deriv, prefix="", names=None):
        self.g = g
        self.n = {}
        self.prefix = prefix
        self.root = self.make(deriv, prefix + deriv[1])

    def make(self, d, path):
        c = Ctx(self, d[1], path)
        count = {}

        def go(kids, star):
            out = []
            for k in kids:
                if k[0] == "star":
                    n = count.get("*", 0)
                    count["*"] = n + 1
                    src = mk("repetition", "%s*%d" % (path, n))
                    out.append(("star", src, go(k[1], True)))
                    continue
                n = count.get(k[1], 0)
                count[k[1]] = n + 1
                p = "%s/%s%s" % (path, k[1], n if n else "")
                out.append(("x", Tok(self, k[1], p) if k[0] == "tok" else self.make(k, p)))
            return out
        c.children = go(d[2], False)
        return c


# ---------------------------------------------------------------- running

def shape(d):
    """A short text for a derivation: its tokens."""
    if d[0] == "tok":
        return d[1]
    if d[0] == "star":
        return "(" + " ".join(shape(x) for x in d[1]) + ")*"
    return " ".join(x for x in (shape(c) for c in d[2]) if x)


REGISTRIES = ("detfn", "probfn", "im", "edp", "fragfn", "lossfn", "compgroup", "structure", "recorder")


class Session:
    """pyslat and a script interpreter, in a state where names may be defined."""
    def __init__(self, case, defined=True, recorders=False, interpreter=True):
        self.I = I = PyInterp(case)
        self.case = case
        self.ps = I.module("pyslat")
        if not isinstance(self.ps, Mod):
            raise Undecided("pyslat.py")
        self.cls = {n: self.ps.ns[n] for n in REGISTRIES if isinstance(self.ps.ns.get(n), Cls)}
        self.entries = {}
        for n, c in self.cls.items():
            if n == "recorder" and not recorders:
                continue
            for k, v in c.ns.items():
                if isinstance(v, LDict) and not v.entries and v.base is None:
                    v.base, v.name = self.base(c), mk("registry", n)
        self.listener = None
        self.wrapped = {}
        case.known = self.known
        if interpreter:
            self.si = I.module("SlatInterpreter")
            self.listener = I.call(self.si.ns["SlatInterpreter"], [], {})
            for k, v in self.listener.attrs.items():
                if isinstance(v, LDict) and not v.entries and v.base is None:
                    v.base, v.name = self.variables, mk("sym", "variables")
        I.registry["attr"] = self.entry_attr
        I.out = []
        case.effects = []

    def known(self, key):
        """Tokens have text; what is registered wraps an object of the library."""
        if key[0] == "true" and isinstance(key[1], Term) and rewrite(key[1]).op == "text":
            return True
        if key[0] == "none" and isinstance(key[1], Term) and rewrite(key[1]).op == "text":
            return False
        if key[0] == "isinstance" and isinstance(key[1], Term) and rewrite(key[1]).op == "text":
            return key[2] == "str"
        if key[0] == "none" and isinstance(key[1], Term) and show(key[1]).startswith("os.path."):
            return False
        if key[0] == "eq" and isinstance(key[1], Term) and key[2] == 0 and key[1].op == "bin" and key[1].a[0] == "+" \
                and any(isinstance(x, int) and x > 0 for x in key[1].a[1:]):
            return False
        if key[0] in ("none", "true") and isinstance(key[1], Term) and key[1].op == "attr" \
                and isinstance(key[1].a[0], Term) and key[1].a[0].op == "entry":
            e = key[1].a[0]
            o = self.entry(self.cls.get(e.a[0]), e.a[1]) if e.a[0] in self.cls else None
            if o is not None and o.cls.find("function")[0] is not None:
                if o.cls.name not in self.wrapped:
                    self.wrapped[o.cls.name] = None
                    try:
                        w = self.method(o, "function")
                        self.wrapped[o.cls.name] = w.a[1] if isinstance(w, Term) and w.op == "attr" and w.a[0] is e else None
                    except (Undecided, PyRaise):
                        pass
                if self.wrapped[o.cls.name] == key[1].a[1]:
                    return key[0] == "true"
        return None

    def variables(self, I, d, key, default):
        return mk("var", freezable(key))

    def base(self, c):
        def get(I, d, key, default):
            if default == "element":
                return self.entry(c, key)
            if isinstance(key, (str, Term, Str, int)):
                k = freezable(key)
                if self.case.decide(("defined", c.name, k)):
                    return self.entry(c, k)
                return default
            if key is None:
                return default
            raise Undecided("registry key %s" % show(key))
        return get

    def entry(self, c, key):
        t = mk("entry", c.name, key)
        if t not in self.entries:
            self.entries[t] = Obj(c, t)
        return self.entries[t]

    def entry_attr(self, I, o, name):
        return MISSING

    def lookup(self, cls, key):
        """pyslat.<cls>.lookup(key), as pyslat itself answers."""
        I = self.I
        return I.call(I.getattr(self.ps.ns[cls], "lookup"), [key], {})

    def method(self, o, name, *args):
        return self.I.call(self.I.getattr(o, name), list(args), {})

    def walk(self, ctx):
        I = self.I
        cap = ctx.rule[0].upper() + ctx.rule[1:]
        for every in ("enterEveryRule",):
            self.handler(every, ctx)
        self.handler("enter" + cap, ctx)

        def go(kids):
            for c in kids:
                if c[0] == "star":
                    before = {k: v for k, v in self.listener.attrs.items()}
                    I.push(c[1])
                    try:
                        go(c[2])
                    finally:
                        I.pop()
                    for k, v in self.listener.attrs.items():
                        if before.get(k) is not v and not (concrete(v) and before.get(k) == v):
                            raise Undecided("a repetition changes what %s is" % k)
                elif isinstance(c[1], Ctx):
                    self.walk(c[1])
                else:
                    self.handler("visitTerminal", c[1])
        go(ctx.children)
        self.handler("exit" + cap, ctx)
        self.handler("exitEveryRule", ctx)

    def handler(self, name, node):
        f, c = self.listener.cls.find(name)
        if f is not None:
            self.I.call(Bound(self.listener, f), [node], {})

    def command(self, ctx):
        """A whole command, between the listener's enterCommand and exitCommand."""
        self.handler("enterCommand", ctx)
        self.walk(ctx)
        self.handler("exitCommand", ctx)


# ---------------------------------------------------------------- canonical values

STRCALLS = ("strip", "replace", "lstrip", "rstrip")


def canon(v):
    """The value as a term in canonical form: conversions of a token's text are
    the token's value."""
    t = freezable(v)
    return rewrite(t)


_rw = {}


def rewrite(t):
    if isinstance(t, tuple):
        return tuple(rewrite(x) for x in t)
    if not isinstance(t, Term):
        return t
    r = _rw.get(t)
    if r is None:
        r = _rw[t] = rewrite1(t)
    return r


def rewrite1(t):
    if t.op == "text":
        return t
    a = tuple(rewrite(x) for x in t.a)
    if t.op == "call":
        f = a[0]
        if f.op == "attr" and f.a[1] in STRCALLS and isinstance(f.a[0], Term) and f.a[0].op in ("text", "value"):
            x = f.a[0]
            x = x if x.op == "text" else x.a[0]
            if x.a[0] == "STRING":
                return mk("value", x)
            return x
        return mk("call", *a)
    if t.op in ("int", "float"):
        x = a[0]
        if isinstance(x, Term) and x.op == "text" and x.a[0] in ("INTEGER", "FLOAT_VAL"):
            if x.a[0] == "INTEGER" or t.op == "float":
                return mk("value", x)
            return mk(t.op, x)
        if isinstance(x, Term) and x.op == "value" and (t.op == "float" or x.a[0].a[0] == "INTEGER"):
            return x
        if isinstance(x, Term) and x.op in ("var", "py"):
            return x
        return mk(t.op, x)
    if t.op == "eval":
        return mk("py", a[0])
    if t.op == "str" and isinstance(a[0], tuple):
        f = []
        for p in a[0]:
            if isinstance(p, tuple) and p[0] == "fmt" and p[1] == "" and isinstance(p[2], Term) and p[2].op == "str" and isinstance(p[2].a[0], tuple):
                f += p[2].a[0]
            else:
                f.append(p)
        a = (tuple(f),) + a[1:]
    if t.op == "str" and isinstance(a[0], tuple) and len(a[0]) == 1 and isinstance(a[0][0], tuple) and a[0][0][0] == "fmt" and a[0][0][1] == "":
        x = a[0][0][2]
        if isinstance(x, Term) and x.op == "text":
            return x
    return mk(t.op, *a)


CORE = mk("sym", "pyslatcore")


def core(name):
    return mk("attr", CORE, name)


def Call(f, *args):
    return mk("call", f if isinstance(f, Term) else core(f), tuple(freezable(x) for x in args), ())


def Method(o, name, *args):
    return mk("call", mk("attr", freezable(o), name), tuple(freezable(x) for x in args), ())


def L(*parts):
    """A list term: ("v", x) and ("star", src, x), as Ctx.items gives them."""
    return canon(LList([("v", p[-1]) if p[0] == "v" else p for p in parts]))


OPERATION = re.compile(r"^(Set|set|Add(?!Distributions|Weighted)|Remove|replace|Integration|Log|Reset|reset|Clear|clear|Initialise)")


def operations(case):
    """What was done to the library's objects and settings, in order:
    (call term, loops)."""
    out = []
    for e in case.effects:
        if e[0] == "call" and isinstance(e[1], Term) and e[1].op == "call" and e[1].a[0].op == "attr" and OPERATION.match(e[1].a[0].a[1]):
            out.append((canon(e[1]), e[2]))
    return out
