#!/usr/bin/env python3
"""Runs the checks on edited copies of the sources (not used by any registered
check).  Each case is a dict: id, prop(s), want ('alarm' | 'quiet'), edits
[(file, old, new), ...] where old must occur exactly once (or n-th given as a
4th item).  Usage: run.py [-k substring] [-p PROP]"""
import os, shutil, subprocess, sys, tempfile, glob, importlib.util
from concurrent.futures import ThreadPoolExecutor
HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)


def load_cases():
    out = []
    for f in sorted(glob.glob(os.path.join(HERE, os.environ.get("CASES", "cases_*.py")))):
        sp = importlib.util.spec_from_file_location(os.path.basename(f)[:-3], f)
        m = importlib.util.module_from_spec(sp)
        sp.loader.exec_module(m)
        out += m.CASES
    return out


def apply(td, edits):
    for e in edits:
        p = os.path.join(td, e[0])
        s = open(p, newline="").read()
        old, new = e[1], e[2]
        if "\r\n" in s:
            old, new = old.replace("\n", "\r\n"), new.replace("\n", "\r\n")
        n = s.count(old)
        if len(e) == 4:
            parts = s.split(old)
            k = e[3]
            if k >= n:
                raise SystemExit("edit of %s: only %d matches of %r" % (e[0], n, old))
            s = old.join(parts[:k + 1]) + new + old.join(parts[k + 1:])
        else:
            if n != 1:
                raise SystemExit("edit of %s: %d matches of %r" % (e[0], n, old))
            s = s.replace(old, new)
        open(p, "w", newline="").write(s)


def one(c):
    td = tempfile.mkdtemp(prefix="slatmut")
    try:
        for x in ("src", "Makefile.common", "linux"):
            s = os.path.join("/repo", x)
            (shutil.copytree if os.path.isdir(s) else shutil.copy)(s, os.path.join(td, x))
        try:
            apply(td, c["edits"])
        except SystemExit as e:
            return c, "BADEDIT", str(e)
        if c.get("revert"):
            d = subprocess.run(["git", "-C", "/repo", "diff", c["revert"], c["revert"] + "~1", "--", "src"], capture_output=True).stdout
            r = subprocess.run(["patch", "-p1", "-s", "--no-backup-if-mismatch", "-d", td], input=d, capture_output=True)
            if r.returncode:
                return c, "BADEDIT", "revert: " + (r.stdout + r.stderr).decode()[:300]
        env = dict(os.environ, SLAT_REPO=td, SLATV_EVIDENCE=os.path.join(td, "ev"))
        res, outp = "ok", ""
        comp = ""
        if c.get("compile", True):
            for f in {e[0] for e in c["edits"]}:
                if f.endswith((".cpp", ".h")):
                    us = [f] if f.endswith(".cpp") else ["src/" + os.path.basename(x) for x in glob.glob(td + "/src/*.cpp") if os.path.basename(x) in ("comp_group.cpp", "structure.cpp", "maq.cpp", "functions.cpp", "relationships.cpp")]
                    for u in us:
                        r = subprocess.run(["g++", "-std=gnu++11", "-fopenmp", "-include", "functional", "-DBOOST_ALL_DYN_LINK", "-Wall", "-Werror", "-fsyntax-only", os.path.join(td, u)], capture_output=True, text=True)
                        if r.returncode:
                            comp = "NOCOMPILE " + r.stderr[:400]
        props = c["prop"] if isinstance(c["prop"], list) else [c["prop"]]
        rcs = {}
        for p in props:
            r = subprocess.run([sys.executable, "-m", "slatv", p], cwd=VERIF, env=env, capture_output=True, text=True)
            rcs[p] = r.returncode
            outp += r.stdout[-1500:] + r.stderr[-1500:]
        if c["want"] == "alarm":
            good = any(v == 1 for v in rcs.values()) and all(v in (0, 1) for v in rcs.values())
        else:
            good = all(v == 0 for v in rcs.values())
        return c, ("pass" if good and not comp else "FAIL"), comp + " " + str(rcs) + "\n" + outp
    finally:
        shutil.rmtree(td, ignore_errors=True)


def main():
    cs = load_cases()
    a = sys.argv[1:]
    while a:
        if a[0] == "-k":
            cs = [c for c in cs if a[1] in c["id"]]
        elif a[0] == "-p":
            cs = [c for c in cs if c["prop"] == a[1] or a[1] in c["prop"]]
        elif a[0] == "--all":
            pass
        a = a[2:]
    bad = 0
    with ThreadPoolExecutor(max_workers=4) as ex:
        for c, r, o in ex.map(one, cs):
            print("%-5s %-40s want %s %s" % (r, c["id"], c["want"], c["prop"]))
            if r != "pass":
                bad += 1
                print("      " + o.strip().replace("\n", "\n      ")[:int(os.environ.get("OUTN","700"))])
    print("%d cases, %d not as wanted" % (len(cs), bad))


if __name__ == "__main__":
    main()
