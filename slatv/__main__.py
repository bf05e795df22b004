import importlib, os, sys, traceback
from .load import AnalysisBroken
from .interp import TooBig
from .report import Check


def main():
    args = [a for a in sys.argv[1:] if not a.startswith("-")]
    thorough = "--thorough" in sys.argv or os.environ.get("VERIF_TIER") == "thorough"
    sys.setrecursionlimit(20000)
    rc = 0
    for a in args:
        try:
            m = importlib.import_module("slatv.checks." + a.lower())
            r = m.run(thorough)
        except (AnalysisBroken, TooBig) as e:
            print("ANALYSIS-BROKEN property=%s %s" % (a, e))
            r = 2
        except Exception as e:
            # what was decided before the error still counts
            traceback.print_exc()
            c = Check.current
            if c is not None and c.prop == a:
                c.missing.append("internal error: %r" % e)
                r = c.finish()
            else:
                r = 3
        rc = rc or r
    return rc


if __name__ == "__main__":
    import threading
    threading.stack_size(512 * 1024 * 1024)
    out = []
    t = threading.Thread(target=lambda: out.append(main()))
    t.start()
    t.join()
    sys.stdout.flush()
    os._exit(out[0] if out else 3)
