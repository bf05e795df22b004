#!/usr/bin/env python3
"""Edits which change no behaviour, in bulk (development tool; no registered check uses it).

equiv.py BATCHES SIZE SEED OUT.jsonl [KIND..]   each batch applies SIZE random edits of equiv.cpp's and runs all checks;
an alarm, a broken or a slow check is traced to the edits it takes"""
import os, sys, re, json, random, shutil, subprocess, tempfile, time
from concurrent.futures import ThreadPoolExecutor
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TOOL = "/tmp/eq/equiv"
FLAGS = ["-std=gnu++11", "-fopenmp", "-DBOOST_ALL_DYN_LINK", "-isystem", VERIF + "/tool/include", "-resource-dir", "/usr/lib/llvm-18/lib/clang/18", "-include", "functional", "-w"]
UNITS = ["caching", "comp_group", "context", "fragility", "functions", "lognormaldist", "loss_functions", "maq", "pyslatcore", "relationships", "structure"]
CHECKS = ["C%02d" % i for i in range(1, 33) if i not in (17, 18, 19, 20)]


def build():
    os.makedirs("/tmp/eq", exist_ok=True)
    src = VERIF + "/selftest/equiv.cpp"
    if not os.path.exists(TOOL) or os.path.getmtime(TOOL) < os.path.getmtime(src):
        subprocess.run(["g++", "-std=c++17", "-O1", "-fno-rtti", "-fno-strict-aliasing", "-w", "-I/usr/lib/llvm-18/include", src, "-o", TOOL,
                        "-L/usr/lib/llvm-18/lib", "-Wl,-rpath,/usr/lib/llvm-18/lib", "-l:libclang-cpp.so.18.1", "-lLLVM-18"], check=True)


def candidates():
    seen = {}
    for u in UNITS:
        o = subprocess.run([TOOL, "/repo/src/", "/repo/src/%s.cpp" % u, "--"] + FLAGS, capture_output=True, text=True).stdout
        for l in o.splitlines():
            seen[re.sub(r"_\d+", "_", l)] = json.loads(l)
    return list(seen.values())


def choose(cs, n):
    used, out = {}, []
    for c in cs:
        sp = [(e[0], e[0] + e[1]) for e in c["edits"]]
        u = used.setdefault(c["file"], [])
        if any(not (d <= b or e <= a) for a, d in sp for b, e in u):
            continue
        u += sp
        out.append(c)
        if len(out) == n:
            break
    return out


def tree(cs):
    td = tempfile.mkdtemp(prefix="slateq")
    for x in ("src", "Makefile.common", "linux"):
        s = os.path.join("/repo", x)
        (shutil.copytree if os.path.isdir(s) else shutil.copy)(s, os.path.join(td, x))
    for f in {c["file"] for c in cs}:
        b = open(f, "rb").read()
        for o, l, t in sorted((tuple(e) for c in cs if c["file"] == f for e in c["edits"]), reverse=True):
            b = b[:o] + t.encode() + b[o + l:]
        open(os.path.join(td, "src", os.path.basename(f)), "wb").write(b)
    return td


def compiles(cs):
    td = tree(cs)
    try:
        us = UNITS if any(c["file"].endswith(".h") for c in cs) else sorted({os.path.basename(c["file"])[:-4] for c in cs})
        for u in us:
            r = subprocess.run(["g++", "-fsyntax-only", "-std=gnu++11", "-fopenmp", "-w", "-include", "functional", "-DBOOST_ALL_DYN_LINK", "-I/usr/include/python3.12", "-I" + td + "/src",
                                td + "/src/%s.cpp" % u], capture_output=True, text=True)
            if r.returncode:
                return False
        return True
    finally:
        shutil.rmtree(td, ignore_errors=True)


def sieve(cs):
    """those which compile"""
    if not cs or compiles(cs):
        return cs
    if len(cs) == 1:
        return []
    h = len(cs) // 2
    return sieve(cs[:h]) + sieve(cs[h:])


def check(cs, ids):
    td = tree(cs)
    try:
        env = dict(os.environ, SLAT_REPO=td, SLATV_EVIDENCE=td + "/ev")
        t = time.time()
        try:
            r = subprocess.run([sys.executable, "-m", "slatv"] + ids, cwd=VERIF, env=env, capture_output=True, text=True, timeout=1200)
        except subprocess.TimeoutExpired:
            return {"slow"}, {}, ""
        bad = set(re.findall(r"VIOLATION property=(C\d+)", r.stdout)) | {"!" + x for x in re.findall(r"ANALYSIS-BROKEN property=(C\d+)", r.stdout)}
        if r.returncode not in (0, 1):
            bad.add("rc%d" % r.returncode)
        und = dict((a, int(n)) for a, n in re.findall(r"^(C\d+): .* (\d+) undecided", r.stdout, re.M) if n != "0")
        return bad, und, "\n".join(l[:400] for l in r.stdout.splitlines() if ".cpp" in l or ".h:" in l)[:1500]
    finally:
        shutil.rmtree(td, ignore_errors=True)


def reduce(cs, bad, ids):
    """a small part of the edits which is enough for the alarm"""
    n = 2
    while len(cs) > 1:
        size = max(1, len(cs) // n)
        parts = [cs[i:i + size] for i in range(0, len(cs), size)]
        for p in parts:
            if compiles(p) and check(p, ids)[0] & bad:
                cs, n = p, 2
                break
        else:
            for p in parts:
                rest = [c for c in cs if c not in p]
                if rest and compiles(rest) and check(rest, ids)[0] & bad:
                    cs, n = rest, max(2, n - 1)
                    break
            else:
                if size == 1:
                    break
                n = min(len(cs), 2 * n)
    return cs


def batch(arg):
    i, cs = arg
    cs = sieve(cs)
    bad, und, txt = check(cs, CHECKS)
    res = {"batch": i, "n": len(cs), "bad": sorted(bad), "undecided": und, "found": []}
    for b in sorted(bad):
        ids = [b.lstrip("!")] if b.lstrip("!") in CHECKS else CHECKS
        few = reduce(cs, {b}, ids)
        res["found"].append({"check": b, "edits": few, "says": check(few, ids)[2]})
    return res


def main():
    batches, size, seed, outp = int(sys.argv[1]), int(sys.argv[2]), int(sys.argv[3]), sys.argv[4]
    build()
    cs = candidates()
    if sys.argv[5:]:
        cs = [c for c in cs if c["kind"] in sys.argv[5:]]
    rnd = random.Random(seed)
    todo = []
    for i in range(batches):
        rnd.shuffle(cs)
        todo.append((i, choose(cs, size)))
    print(len(cs), "candidates", flush=True)
    with open(outp, "w") as o, ThreadPoolExecutor(int(os.environ.get("JOBS", "5"))) as ex:
        for r in ex.map(batch, todo):
            o.write(json.dumps(r) + "\n")
            o.flush()
            print(r["batch"], r["n"], r["bad"], r["undecided"], flush=True)
            for f in r["found"]:
                print("   ", f["check"], "; ".join("%s:%s %s" % (os.path.basename(e["file"]), e["line"], e["kind"]) for e in f["edits"]), flush=True)
                for e in f["edits"][:3]:
                    print("        ", e["edits"][0][2][:200].replace("\n", " "))
                print("        ", f["says"][:500].replace("\n", "\n         "), flush=True)


main()
