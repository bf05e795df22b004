#!/usr/bin/env python3
"""Mutation sweep (development tool; no registered check uses it).

mutate.py cpp|py N SEED OUT.jsonl   N random one-line changes of the sources; which checks report each"""
import os, sys, re, json, random, shutil, subprocess, tempfile
from concurrent.futures import ThreadPoolExecutor
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, VERIF)
CPP = ["caching.cpp", "caching.h", "comp_group.cpp", "comp_group.h", "context.cpp", "fragility.cpp", "fragility.h", "functions.cpp", "functions.h",
       "lognormaldist.cpp", "lognormaldist.h", "loss_functions.cpp", "loss_functions.h", "maq.cpp", "maq.h", "pyslatcore.cpp", "pyslatcore.h",
       "relationships.cpp", "relationships.h", "replaceable.h", "structure.cpp", "structure.h"]
PY = ["pyslat.py", "SlatInterpreter.py"]
ALL = ["C%02d" % i for i in range(1, 33)]
WHICH = {"cpp": [x for x in ALL if x not in ("C17", "C18", "C19", "C20")], "py": ["C17", "C18", "C19", "C20"]}
PAIRS = [("cost_fn", "delay_fn"), ("cost_adjustment_factor", "delay_adjustment_factor"), ("pCollapse", "pDemolition"), ("pRepair", "pCollapse"),
         ("rebuild_cost", "demolition_cost"), ("get_mean_X", "get_median_X"), ("get_sigma_X", "get_sigma_lnX"), ("get_mean_X", "get_mu_lnX"),
         ("p_at_least", "p_at_most"), ("E_cost_IM", "E_delay_IM"), ("E_cost_EDP", "E_delay_EDP"), ("edp_callback_id", "frag_fn_callback_id"),
         ("cost_fn_callback_id", "delay_fn_callback_id"), ("MEAN_X", "MEDIAN_X"), ("SIGMA_X", "SIGMA_LN_X"), ("first", "second"),
         ("front", "back"), ("collapse", "demolition"), ("mu_function", "sigma_function"), ("mu", "sigma"), ("changed", "replaced"),
         ("push_back", "push_front"), ("SD", "SD_ln"), ("mean", "sd"), ("cost", "delay"), ("x", "y"), ("i", "j"), ("a", "b"), ("min", "max"),
         ("AddDistributions", "AddWeightedDistributions"), ("edp", "im"), ("append", "insert"), ("abs", "sqrt"), ("exp", "log"),
         ("Collapse", "Demolition"), ("rebuild", "demolition"), ("repair", "collapse"), ("mean_x", "median_x"), ("sd_x", "sd_ln_x"),
         ("Set_Tolerance", "Set_Integration_Eval_Limit"), ("lower", "upper"), ("left", "right")]


def mutants(kind):
    out = []
    for fn in CPP if kind == "cpp" else PY:
        path = "/repo/src/" + fn
        raw = open(path, newline="").read()
        lines = raw.split("\n")
        block = False
        depth = 0
        for no, l in enumerate(lines):
            s = l
            if kind == "cpp":
                if block:
                    if "*/" in s:
                        block = False
                    continue
                if "/*" in s and "*/" not in s:
                    block = True
                    s = s[:s.index("/*")]
                s = re.sub(r"//.*|/\*.*?\*/", lambda m: " " * len(m.group()), s)
                if s.lstrip().startswith("#"):
                    continue
            else:
                if s.count('"""') == 1 or s.count("'''") == 1:
                    block = not block
                    continue
                if block:
                    continue
                s = re.sub(r"#.*", lambda m: " " * len(m.group()), s)
            s = re.sub(r'"(\\.|[^"\\])*"', lambda m: '"' + "\x01" * (len(m.group()) - 2) + '"', s)
            if kind == "cpp" and re.search(r"\b(cout|cerr|msg)\b|<< |\bstd::string\(\"|BOOST|logging", s) or not s.strip():
                continue
            if kind == "py" and re.search(r"\b(print|import)\b", s):
                continue

            def add(a, b, new, what):
                out.append((fn, no, l[:a] + new + l[b:], what))
            REL = {"<": ["<="], ">": [">="], "<=": ["<"], ">=": [">"], "==": ["!="], "!=": ["=="]}
            for m in re.finditer(r"(?<=[\w)\] ]) (<=|>=|==|!=|<|>) (?=[\w(\-!&*.\"])|(?<=\w)(<=|<|>=|>)(?=[\w.]+\()|(?<=\w)(==|!=|<=|>=)(?=[\w(])", s):
                op = next(g for g in m.groups() if g)
                k = m.start() + m.group().index(op)
                for n in REL[op]:
                    add(k, k + len(op), n, "rel")
            AR = {"+": "-", "-": "+", "*": "/", "/": "*"}
            for m in re.finditer(r"(?<=[\w)\]]) ?([+\-*/]) ?(?=[\w(])", s):
                k = m.start() + m.group().index(m.group(1))
                if s[k + 1] in "=>+-" or s[k - 1] in "+-" or kind == "cpp" and re.search(r"\b[A-Z]\w*( |>)\*", s[:k + 1]):
                    continue
                if m.group(1) == "-" and re.search(r"\de$", s[:k]):
                    continue
                add(k, k + 1, AR[m.group(1)], "arith")
            for m in re.finditer(r"&& |\|\| |\band\b|\bor\b" if kind == "py" else r"&& |\|\| ", s):
                add(m.start(), m.end(), {"&& ": "|| ", "|| ": "&& ", "and": "or", "or": "and"}[m.group()], "logic")
            for m in re.finditer(r"\btrue\b|\bfalse\b|\bTrue\b|\bFalse\b", s):
                add(m.start(), m.end(), {"true": "false", "false": "true", "True": "False", "False": "True"}[m.group()], "bool")
            for m in re.finditer(r"(?<![\w.\x01])(\d+(\.\d+)?)(?![\w.\x01])", s):
                v = m.group()
                add(m.start(), m.end(), "1" + v[1:] if v[0] == "0" else str(int(v[0]) + 1) + v[1:], "const")
            if kind == "cpp":
                m = re.match(r"^(\s*(?:\}? ?else )?if ?\()(.*)(\) ?\{?.*)$", s)
                if m and s.count("(") == s.count(")"):
                    a, b = m.start(2), m.end(2)
                    add(a, b, "!(" + l[a:b] + ")", "cond")
                if re.match(r"^\s+[^{}]*;\s*$", s) and s.count("(") == s.count(")") and not re.match(r"^\s*(return\b.*[^;]|using|typedef|[\w:<>,]+[&*]? [\w]+( ?=.*)?;|const |static |virtual |std::shared_ptr<\w+> \w+;|double |int |bool |omp_lock|case|break)", s):
                    add(0, len(l), "", "delete")
                if re.match(r"^\s*(break|continue);", s):
                    add(0, len(l), "", "delete")
            else:
                m = re.match(r"^(\s*(?:el)?if )(.*)(:\s*)$", s)
                if m:
                    a, b = m.start(2), m.end(2)
                    add(a, b, "not (" + l[a:b] + ")", "cond")
                m = re.match(r"^(\s+)(?!def |class |return|if |for |else|elif|try|except|while |with |pass|raise|@|global|[\"'])\S.*$", s)
                if m and s.count("(") == s.count(")") and s.count("[") == s.count("]") and not s.rstrip().endswith((":", "\\", ",")):
                    add(len(m.group(1)), len(l), "pass", "delete")
            for p, q in PAIRS:
                for a, b in ((p, q), (q, p)):
                    for m in re.finditer(r"\b%s\b" % a, s):
                        add(m.start(), m.end(), b, "name")
    return out


def try1(kind, mt):
    fn, no, new, what = mt
    td = tempfile.mkdtemp(prefix="slatmt")
    try:
        for x in ("src", "Makefile.common", "linux"):
            s = os.path.join("/repo", x)
            (shutil.copytree if os.path.isdir(s) else shutil.copy)(s, os.path.join(td, x))
        p = os.path.join(td, "src", fn)
        lines = open(p, newline="").read().split("\n")
        old = lines[no]
        cr = "\r" if old.endswith("\r") and not new.endswith("\r") else ""
        lines[no] = new + cr
        open(p, "w", newline="").write("\n".join(lines))
        res = {"file": fn, "line": no + 1, "what": what, "old": old.strip(), "new": new.strip()}
        if kind == "cpp":
            src = p if p.endswith(".cpp") else None
            import glob
            todo = [src] if src else [x for x in ("structure.cpp", "pyslatcore.cpp", "caching.cpp", "context.cpp", "maq.cpp")]
            for t in todo:
                t = t if os.path.isabs(t) else os.path.join(td, "src", t)
                r = subprocess.run(["g++", "-fsyntax-only", "-std=gnu++11", "-fopenmp", "-Wall", "-Werror", "-O1", "-include", "functional", "-DBOOST_ALL_DYN_LINK",
                                    "-I/usr/include/python3.12", "-I" + os.path.join(td, "src"), t], capture_output=True, text=True)
                if r.returncode:
                    res["result"] = "no build"
                    return res
        else:
            r = subprocess.run([sys.executable, "-m", "py_compile", p], capture_output=True, text=True)
            if r.returncode:
                res["result"] = "no build"
                return res
        env = dict(os.environ, SLAT_REPO=td, SLATV_EVIDENCE=os.path.join(td, "ev"))
        try:
            r = subprocess.run([sys.executable, "-m", "slatv"] + WHICH[kind], cwd=VERIF, env=env, capture_output=True, text=True, timeout=600)
            o = r.stdout
        except subprocess.TimeoutExpired:
            res["result"] = "timeout"
            return res
        res["caught"] = re.findall(r"VIOLATION property=(C\d+)", o)
        res["broken"] = re.findall(r"ANALYSIS-BROKEN property=(C\d+)", o)
        res["undecided"] = [a for a, n in re.findall(r"^(C\d+): .* (\d+) undecided", o, re.M) if n != "0"]
        res["result"] = "caught" if res["caught"] else "survived"
        return res
    finally:
        shutil.rmtree(td, ignore_errors=True)


def main():
    kind, n, seed, outp = sys.argv[1], int(sys.argv[2]), int(sys.argv[3]), sys.argv[4]
    ms = mutants(kind)
    print(len(ms), "mutants", flush=True)
    random.Random(seed).shuffle(ms)
    ms = ms[:n]
    with open(outp, "w") as o, ThreadPoolExecutor(int(os.environ.get("JOBS", "6"))) as ex:
        for r in ex.map(lambda x: try1(kind, x), ms):
            o.write(json.dumps(r) + "\n")
            o.flush()


main()
