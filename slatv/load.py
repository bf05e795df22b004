"""Parses /repo's C++ (every translation unit of the library and of the Python
binding, with the build's own flags) with clang's front end and merges the
resolved programs."""
import hashlib, json, os, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("SLAT_REPO", "/repo")
SRC = os.path.join(REPO, "src")
SLATX = os.path.join(VERIF, "build", "slatx")


class AnalysisBroken(Exception):
    """The analysis cannot decide (vanished anchor, parse error): error exit."""


def lib_units():
    """The library's translation units, as the build lists them."""
    mk = open(os.path.join(REPO, "Makefile.common"), errors="replace").read()
    units = []
    for line in mk.replace("\\\n", " ").split("\n"):
        if line.strip().startswith("LIBSRCS"):
            for w in line.split("=", 1)[1].split():
                units.append(os.path.basename(w))
    units = [u if u.endswith(".cpp") else u + ".cpp" for u in units]
    units = [u for u in units if os.path.exists(os.path.join(SRC, u))]
    if len(units) < 8:
        raise AnalysisBroken("LIBSRCS in Makefile.common no longer lists the library sources: %r" % units)
    return units


FLAGS = ["-std=gnu++11", "-fopenmp", "-DBOOST_ALL_DYN_LINK",
         "-isystem", os.path.join(VERIF, "tool", "include"),
         "-resource-dir", "/usr/lib/llvm-18/lib/clang/18",
         "-include", "functional", "-w"]


def ensure_tool():
    if not os.path.exists(SLATX) or os.path.getmtime(SLATX) < os.path.getmtime(os.path.join(VERIF, "tool", "slatx.cpp")):
        r = subprocess.run(["bash", os.path.join(VERIF, "tool", "build.sh"), SLATX], capture_output=True, text=True)
        if r.returncode != 0:
            raise AnalysisBroken("cannot build the exporter: " + r.stderr[-2000:])


def extract_unit(path, out):
    r = subprocess.run([SLATX, SRC, out, path, "--"] + FLAGS, capture_output=True, text=True)
    if not os.path.exists(out) or os.path.getsize(out) == 0:
        raise AnalysisBroken("exporter failed on %s: %s" % (path, (r.stderr or r.stdout)[-1500:]))
    d = json.load(open(out))
    if d.get("errors"):
        raise AnalysisBroken("clang reports %d error(s) in %s: %s" % (d["errors"], path, r.stderr[-1500:]))
    return d


def source_key(extra=()):
    h = hashlib.sha256()
    for f in sorted(os.listdir(SRC)):
        if f.endswith((".cpp", ".h")):
            h.update(f.encode() + b"\0" + open(os.path.join(SRC, f), "rb").read() + b"\0")
    h.update(open(SLATX, "rb").read())
    h.update(SRC.encode())
    for e in extra:
        h.update(str(e).encode())
    return h.hexdigest()[:24]


class Program:
    def __init__(self):
        self.funcs = {}      # id -> function with body preferred
        self.records = {}    # qualified name -> record
        self.vars = {}
        self.enums = {}
        self.units = []

    def merge(self, d):
        self.units.append(d["tu"])
        for f in d["functions"]:
            o = self.funcs.get(f["id"])
            if o is None or ("body" in f and "body" not in o):
                self.funcs[f["id"]] = f
        for r in d["records"]:
            o = self.records.get(r["q"])
            if o is None:
                self.records[r["q"]] = r
            else:
                have = {m["id"] for m in o["methods"]}
                o["methods"] += [m for m in r["methods"] if m["id"] not in have]
        for v in d["vars"]:
            o = self.vars.get(v.get("id"))
            if o is None or ("init" in v and "init" not in o):
                self.vars[v["id"]] = v
        for e in d["enums"]:
            self.enums[e["q"]] = e

    def index(self):
        self.by_q = {}
        for f in self.funcs.values():
            self.by_q.setdefault(f["q"], []).append(f)
        self.derived = {}
        for r in self.records.values():
            for b in r.get("bases", []):
                bn = b if isinstance(b, str) else b.get("q") or b.get("name")
                self.derived.setdefault(bn, []).append(r["q"])
        self.overriders = {}
        for f in self.funcs.values():
            for o in f.get("ovr", []):
                self.overriders.setdefault(o, []).append(f["id"])
        self.methods_of = {}
        for f in self.funcs.values():
            if f.get("rec") and not f.get("islambda"):
                self.methods_of.setdefault(f["rec"], []).append(f)
        self.hidden_fields()
        self.dtor_of = {}
        for f in self.funcs.values():
            if f.get("k") == "dtor":
                self.dtor_of[f["rec"]] = f

    def hidden_fields(self):
        """Fields of a base class with the name of a field of a derived class
        get a name of their own: locations are named by field name."""
        ren = {}
        for r in self.records.values():
            own = {f["name"] for f in r.get("fields", [])}
            for b in self.bases(r["q"]):
                for f in self.records.get(b, {}).get("fields", []):
                    if f["name"] in own and f.get("id"):
                        ren[f["id"]] = "%s@%s" % (f["name"], b.split("<")[0].split("::")[-1])
        if not ren:
            return
        for r in self.records.values():
            for f in r.get("fields", []):
                if f.get("id") in ren:
                    f["name"] = ren[f["id"]]
        for fn in self.funcs.values():
            st = [fn.get("body"), fn.get("inits")]
            while st:
                x = st.pop()
                if isinstance(x, list):
                    st.extend(x)
                elif isinstance(x, dict):
                    if x.get("f") in ren and ("n" in x or "name" in x):
                        x["n" if "n" in x else "name"] = ren[x["f"]]
                    st.extend(x.values())

    def bases(self, q):
        r = self.records.get(q)
        out = []
        for b in (r.get("bases", []) if r else []):
            bn = b if isinstance(b, str) else b.get("q") or b.get("name")
            out.append(bn)
            out += self.bases(bn)
        return out

    def all_derived(self, q):
        out = []
        for d in self.derived.get(q, []):
            out.append(d)
            out += self.all_derived(d)
        return out

    def all_fields(self, q):
        out = []
        for b in self.bases(q)[::-1]:
            out += self.records.get(b, {}).get("fields", [])
        out += self.records.get(q, {}).get("fields", [])
        return out

    def fn(self, q, pred=None, need_body=True):
        c = [f for f in self.by_q.get(q, []) if ("body" in f or not need_body) and (pred is None or pred(f))]
        return c

    def one(self, q, pred=None):
        c = self.fn(q, pred)
        if len(c) != 1:
            raise AnalysisBroken("expected exactly one definition of %s, found %d" % (q, len(c)))
        return c[0]


_mem = {}


def load(units=None, binding=True):
    ensure_tool()
    us = list(units or lib_units())
    if binding:
        us.append("pyslatcore.cpp")
    key = source_key(us)
    if key in _mem:
        return _mem[key]
    cdir = os.path.join(VERIF, "build", "cache")
    os.makedirs(cdir, exist_ok=True)
    cf = os.path.join(cdir, key + ".json")
    ds = None
    if os.path.exists(cf) and not os.environ.get("SLATV_NOCACHE"):
        try:
            ds = json.load(open(cf))
        except Exception:
            ds = None
    if ds is None:
        with tempfile.TemporaryDirectory() as td:
            with ThreadPoolExecutor(max_workers=min(8, os.cpu_count() or 4)) as ex:
                ds = list(ex.map(lambda u: extract_unit(os.path.join(SRC, u), os.path.join(td, u + ".json")), us))
        tmp = cf + ".%d.tmp" % os.getpid()
        json.dump(ds, open(tmp, "w"))
        os.replace(tmp, cf)
        old = sorted((f for f in os.listdir(cdir) if f.endswith(".json")), key=lambda f: os.path.getmtime(os.path.join(cdir, f)))
        for f in old[:-12]:
            try:
                os.unlink(os.path.join(cdir, f))
            except OSError:
                pass
    p = Program()
    for d in ds:
        p.merge(d)
    p.index()
    _mem[key] = p
    return p
