#!/usr/bin/env python3
"""Confirms planted bugs (development tool; no registered check uses it).

plant.py make FILE.py [id..]   writes /verif/seeded/<id>/ from definitions
plant.py try id..              builds, runs tests and demo with and without the
                               patch in a private copy of /repo bound over /repo,
                               and the property's check against it
Definitions: SEEDS = [dict(id, prop, edits=[(file, old, new[, nth])], demo=<C++ text> or py=<python text>
or sh=<shell text>, needs, breaks)]."""
import os, sys, json, shutil, subprocess, tempfile, importlib.util, difflib
import queue
CPUS = queue.Queue()
CPUS.put("0-3")
CPUS.put("4-7")
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CPP = '''#!/bin/bash
# Compiles the program beside this file against the library and runs it.
D=$(cd "$(dirname "$0")" && pwd)
W=$(mktemp -d); trap 'rm -rf "$W"' EXIT
L=/repo/_build/tree/linux/lib
g++ -g -O1 -std=gnu++11 -fopenmp -include functional -DBOOST_ALL_DYN_LINK -I/repo/src "$D/demo.cpp" -o "$W/demo" -L$L -lslat \\
    -lboost_log -lboost_thread -lboost_system -lgsl -lgslcblas -lpthread || exit 3
cd "$W"
LD_LIBRARY_PATH=$L timeout %d "$W/demo" > "$W/out" 2>&1
r=$?
tail -5 "$W/out"
exit $r
'''
PYD = '''#!/bin/bash
# Runs the Python program beside this file with the built modules.
D=$(cd "$(dirname "$0")" && pwd)
W=$(mktemp -d); trap 'rm -rf "$W"' EXIT
export LD_LIBRARY_PATH=/repo/_build/tree/linux/lib
export PYTHONPATH=/repo/_build/tree/linux/lib:/repo/_build/tree/linux/scripts:/repo/_build/tree/src PYTHONDONTWRITEBYTECODE=1
cp "$D"/* "$W"/; cd "$W"
timeout %d python3 demo.py > out 2>&1
r=$?
tail -5 out
exit $r
'''


def sub(s, e):
    old, new = e[1], e[2]
    if "\r\n" in s:
        old, new = old.replace("\n", "\r\n"), new.replace("\n", "\r\n")
    n = s.count(old)
    if len(e) == 4:
        parts = s.split(old)
        assert e[3] < n, (e[0], n, old)
        return old.join(parts[:e[3] + 1]) + new + old.join(parts[e[3] + 1:])
    assert n == 1, (e[0], n, old)
    return s.replace(old, new)


def make(files, only):
    for fn in files:
        sp = importlib.util.spec_from_file_location("x", fn)
        m = importlib.util.module_from_spec(sp)
        sp.loader.exec_module(m)
        for s in m.SEEDS:
            if only and s["id"] not in only:
                continue
            d = os.path.join(VERIF, "seeded", s["id"])
            td = tempfile.mkdtemp()
            try:
                subprocess.check_call(["git", "clone", "-q", "/repo", td + "/r"])
                for e in s["edits"]:
                    p = os.path.join(td, "r", e[0])
                    t = open(p, newline="").read()
                    open(p, "w", newline="").write(sub(t, e))
                diff = subprocess.check_output(["git", "-C", td + "/r", "diff"])
                # only lines of the original repository may change
                base = subprocess.check_output(["git", "-C", td + "/r", "rev-list", "--max-parents=0", "HEAD"], text=True).strip()
                os.makedirs(d, exist_ok=True)
                open(os.path.join(d, "patch.diff"), "wb").write(diff)
                if not blame_ok(td + "/r", base, diff.decode(errors="replace")):
                    print("WARNING", s["id"], "changes a line added by a fix")
            finally:
                shutil.rmtree(td)
            t = s.get("timeout", 120)
            if "demo" in s:
                open(os.path.join(d, "demo.cpp"), "w").write(s["demo"].lstrip("\n"))
                sh = CPP % t
            elif "py" in s:
                open(os.path.join(d, "demo.py"), "w").write(s["py"].lstrip("\n"))
                sh = PYD % t
            else:
                sh = s["sh"]
            open(os.path.join(d, "demo.sh"), "w").write(sh)
            for n, t in s.get("files", {}).items():
                open(os.path.join(d, n), "w").write(t)
            json.dump({"property": s["prop"], "needs": s["needs"], "what_it_breaks": s["breaks"]},
                      open(os.path.join(d, "meta.json"), "w"), indent=1)
            print("made", s["id"])


def blame_ok(r, base, diff):
    import re
    f, ok, ln = None, True, 0
    for l in diff.splitlines():
        if l.startswith("--- a/"):
            f = l[6:]
            bl = subprocess.check_output(["git", "-C", r, "blame", "-s", "-l", "--root", "HEAD", "--", f], text=True, errors="replace").splitlines()
        elif l.startswith("@@"):
            ln = int(re.match(r"@@ -(\d+)", l).group(1))
        elif l.startswith("-") and not l.startswith("---"):
            if not bl[ln - 1].lstrip("^").startswith(base[:38]):
                ok = False
            ln += 1
        elif l.startswith(" "):
            ln += 1
    return ok


INNER = r'''
set -u
mount --bind %(w)s /repo || exit 9
cd /repo
export HOME=/tmp
%(apply)s
bash /opt/vp/build.sh > %(w)s/_log.build 2>&1 || { echo BUILD-FAILED; tail -5 %(w)s/_log.build; exit 8; }
if [ %(tests)d = 1 ]; then bash /opt/vp/test.sh /repo/_r.json > %(w)s/_log.test 2>&1; fi
bash %(demo)s/demo.sh; echo "demo rc $?"
'''


def inner(id, w, patched):
    d = os.path.join(VERIF, "seeded", id)
    dd = tempfile.mkdtemp(prefix="demo")
    for f in os.listdir(d):
        if not f.endswith((".diff", ".json")):
            shutil.copy(os.path.join(d, f), dd)
    s = INNER % dict(w=w, demo=dd, tests=1 if patched else 0,
                     apply=("git apply %s/patch.diff || exit 7" % d) if patched else "true")
    cpus = CPUS.get()
    r = subprocess.run(["taskset", "-c", cpus, "unshare", "-Urm", "bash", "-c", s], capture_output=True, text=True)
    CPUS.put(cpus)
    shutil.rmtree(dd)
    return r


def attempt(id):
    out = [id]
    w = "/tmp/plant.%s" % id
    try:
        subprocess.check_call(["rsync", "-a", "--delete", "/repo/", w + "/"])
        r = inner(id, w, False)
        out.append("clean: " + " | ".join(r.stdout.strip().splitlines()[-2:]) + r.stderr.strip()[-200:])
        r2 = inner(id, w, True)
        out.append("patched: " + " | ".join(r2.stdout.strip().splitlines()[-3:]) + r2.stderr.strip()[-200:])
        b = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])
        try:
            p = set(json.load(open(w + "/_r.json"))["passed"])
        except Exception:
            p = set()
        miss = sorted(b - p)
        out.append("tests missing %d %s" % (len(miss), miss[:4]))
        prop = json.load(open(os.path.join(VERIF, "seeded", id, "meta.json")))["property"]
        env = dict(os.environ, SLAT_REPO=w, SLATV_EVIDENCE=w + "/_ev")
        c = subprocess.run([sys.executable, "-m", "slatv", prop], cwd=VERIF, env=env, capture_output=True, text=True)
        vs = [l for l in c.stdout.splitlines() if l.startswith("  ")]
        out.append("check %s rc %d %s" % (prop, c.returncode, " / ".join(x.strip()[:230] for x in vs[:2])))
        good = "demo rc 0" in r.stdout and "demo rc" in r2.stdout and "demo rc 0" not in r2.stdout and not miss
        out.append("==> %s, %s" % ("GOOD" if good else "NOT A SEED", "caught" if c.returncode == 1 else "MISSED rc %d" % c.returncode))
    finally:
        shutil.rmtree(w, ignore_errors=True)
    return "\n   ".join(out)


def main():
    if sys.argv[1] == "make":
        make([sys.argv[2]], sys.argv[3:])
    else:
        from concurrent.futures import ThreadPoolExecutor
        with ThreadPoolExecutor(max_workers=2) as ex:
            for o in ex.map(attempt, sys.argv[2:]):
                print(o, flush=True)


main()
