"""Obligations, known findings, evidence and exit status of one check."""
import json, os, sys, time
from .load import AnalysisBroken, REPO, VERIF

KNOWN = os.path.join(VERIF, "known_findings.txt")


def known_keys(prop):
    keys = {}
    if os.path.exists(KNOWN):
        for line in open(KNOWN):
            line = line.strip()
            if line.startswith("known: property=%s " % prop):
                rest = line[len("known: property=%s " % prop):]
                if rest.startswith("key="):
                    k, _, text = rest[4:].partition(" :: ")
                    keys[k.strip()] = text.strip()
    return keys


class Check:
    current = None

    def __init__(self, prop, rule, thorough=False):
        self.prop, self.rule = prop, rule
        Check.current = self
        self.thorough = thorough
        self.t0 = time.time()
        self.obs = []          # (ok, rule, where, what, detail, key)
        self.und = []          # undecided, with reason
        self.counts = {}
        self.functions = set()
        self.sites = set()
        self.keys = set()
        self.notes = []
        self.missing = []      # rules with fewer decided instances than expected
        self.rules = {}
        self.before_finish = []

    # --- recording
    def ob(self, rule, where, what, ok, detail="", key=None):
        """One obligation: `rule` instantiated at `where` about `what`.
        ok: True (discharged) / False (violated) / None (undecided: quiet)."""
        k = (rule, where, what)
        self.rules.setdefault(rule, [0, 0])
        if ok is None:
            self.und.append((rule, where, what, detail))
            return
        if k in self.keys and ok:
            return
        self.keys.add(k)
        self.rules[rule][0 if ok else 1] += 1
        self.obs.append((bool(ok), rule, where, what, detail, key or "%s|%s" % (rule, what)))

    def count(self, name, n=1):
        self.counts[name] = self.counts.get(name, 0) + n

    def need(self, rule, n):
        """The rule must have at least n decided instances."""
        got = sum(self.rules.get(rule, [0, 0]))
        if got < n:
            self.missing.append("rule '%s' decided %d instance(s), expected at least %d" % (rule, got, n))

    def broken(self, msg):
        self.notes.append(msg)

    # --- the end
    def finish(self):
        for f in self.before_finish:
            f()
        viol = [o for o in self.obs if not o[0]]
        known = known_keys(self.prop)
        listed = [o for o in viol if o[5] in known]
        fresh = [o for o in viol if o[5] not in known]
        for o in sorted(set((x[5], x[2], x[4]) for x in listed)):
            print("KNOWN-FINDING: property=%s %s (%s) %s" % (self.prop, known[o[0]] or o[0], o[1], o[2]))
        tier = "thorough" if self.thorough else "quick"
        ev = {
            "property": self.prop, "tier": tier,
            "seed": int(os.environ.get("VERIF_SEED", "1") or 1), "level": "other",
            "coverage": {
                "explanation": self.rule,
                "obligations": len(self.obs), "discharged": len(self.obs) - len(viol),
                "known_findings": len(listed), "undecided": len(self.und),
                "functions_analysed": len(self.functions),
                "sites": len(self.sites),
                "rules": {k: {"discharged": v[0], "violated": v[1]} for k, v in sorted(self.rules.items())},
                "samples": ["%s: %s @ %s" % (o[1], o[3], o[2]) for o in self.obs[:12]],
                "incomplete": self.notes + self.missing,
                "undecided_samples": ["%s: %s @ %s (%s)" % u for u in self.und[:8]],
            },
            "wall_s": round(time.time() - self.t0, 3),
            "violations": len(fresh),
        }
        ev["coverage"].update(self.counts)
        evdir = os.environ.get("SLATV_EVIDENCE") or os.path.join(VERIF, "evidence")
        os.makedirs(evdir, exist_ok=True)
        rc = 0
        if fresh:
            rd = os.environ.get("SLATV_EVIDENCE") or os.path.join(VERIF, "build", "replay")
            os.makedirs(rd, exist_ok=True)
            path = os.path.join(rd, self.prop + ".txt")
            with open(path, "w") as f:
                for o in fresh:
                    f.write("rule: %s\nwhere: %s\nwhat: %s\ndetail: %s\nkey: %s\n\n" % (o[1], o[2], o[3], o[4], o[5]))
            for o in fresh[:20]:
                print("  %s: %s: %s%s" % (o[2], o[1], o[3], (" -- " + o[4]) if o[4] else ""))
            print("VIOLATION property=%s replay=%s" % (self.prop, path))
            rc = 1
        elif (self.notes or self.missing) and not self.obs:
            # nothing was decided: no answer
            for n in self.notes + self.missing:
                print("ANALYSIS-BROKEN property=%s %s" % (self.prop, n))
            rc = 2
        else:
            for n in self.notes + self.missing:
                print("ANALYSIS-INCOMPLETE property=%s %s" % (self.prop, n))
        tmp = os.path.join(evdir, self.prop + ".json")
        json.dump(ev, open(tmp, "w"), indent=1, sort_keys=True)
        print("%s: %d obligations, %d discharged, %d known, %d undecided; %d functions, %.1f s" % (
            self.prop, len(self.obs), len(self.obs) - len(viol), len(listed), len(self.und), len(self.functions),
            time.time() - self.t0))
        return rc
