"""Which indices a loop visits, from the interpreter's loop terms."""
from .interp import *


def plus1(t, ph):
    return t.op == "bin" and t.a[0] == "+" and ph in (t.a[1], t.a[2]) and mk("lit", 1) in (t.a[1], t.a[2])


def minus1(t, ph):
    return (t.op == "bin" and t.a[0] == "-" and t.a[1] == ph and t.a[2] == mk("lit", 1)) or \
           (t.op == "bin" and t.a[0] == "+" and ph in (t.a[1], t.a[2]) and mk("lit", -1) in (t.a[1], t.a[2]))


def counter(I, ph, sizes, facts):
    """(True/False/None, detail): the loop counter ph takes each of
    0..size-1 exactly once, for the container sizes given."""
    ent, back = I.phi_entry.get(ph), I.phi_back.get(ph)
    if not ent or not back or len(ent) != 1 or len(back) != 1:
        return None, "counter not understood"
    e, b = next(iter(ent)), next(iter(back))
    if plus1(b, ph):
        if e != mk("lit", 0):
            if e.op == "lit" and isinstance(e.a[0], (int, float)):
                return False, "the loop starts at %s" % show(e)
            return None, "starts at %s" % show(e)
        ends = []
        for t, v in facts:
            if t.op == "lt" and t.a[0] == ph and not v:
                ends.append((t.a[1], 0))
            elif t.op == "le" and t.a[0] == ph and not v:
                ends.append((t.a[1], 1))
            elif t.op == "eq" and ph in t.a and v:
                ends.append((t.a[0] if t.a[1] == ph else t.a[1], 0))
        if not ends:
            return None, "the end of the loop is not understood"
        for n, d in ends:
            if n in sizes and d == 0:
                return True, ""
            if n in sizes and d == 1:
                return False, "the loop runs beyond the last element"
            if n.op == "bin" and n.a[0] in "+-" and n.a[1] in sizes and n.a[2].op == "lit":
                k = n.a[2].a[0] * (1 if n.a[0] == "+" else -1) + d
                if k == 0:
                    return True, ""
                return False, "the loop ends %s element(s) %s the last" % (abs(k), "before" if k < 0 else "after")
            if n.op == "lit":
                return False, "the loop ends at %s" % show(n)
        return None, "ends at %s" % ", ".join(show(n) for n, _ in ends)
    if b.op == "bin" and b.a[0] == "+" and ph in (b.a[1], b.a[2]):
        o = b.a[1] if b.a[2] == ph else b.a[2]
        if o.op == "lit":
            return False, "the loop steps by %s" % show(o)
    if minus1(b, ph):
        if e in sizes:
            for t, v in facts:
                if (t.op == "lt" and t.a == (mk("lit", 0), ph) and not v) or (t.op == "eq" and ph in t.a and mk("lit", 0) in t.a and v):
                    return "down", ""
        return None, "counts down"
    return None, "step %s" % show(b)
