"""Single source of properties.jsonl and MANIFEST.json: python3 tool/gen.py"""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P, NA = [], []


def prop(id, title, statement, over, text, why, files, mech, state=None, observe=None, technique="", note="", claimed=True):
    d = {"id": id, "title": title, "statement": statement,
         "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
         "anchors": {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech],
                     "observe_at": [observe] if observe else []}}
    if state:
        d["anchors"]["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    P.append((d, technique, note, claimed))


def na(id, reason):
    NA.append({"property": id, "reason": reason})


def main():
    sys.path.insert(0, os.path.join(V, "tool"))
    import props
    props.define(prop, na)
    for d, *_ in P:
        n = d["statement"].count(". ") + 1
        assert len(d["title"]) <= 80, d["id"]
        assert n <= 3, (d["id"], n)
    with open(os.path.join(V, "properties.jsonl"), "w") as f:
        for d, *_ in sorted(P, key=lambda x: x[0]["id"]):
            f.write(json.dumps(d) + "\n")
    nas = {x["property"] for x in NA}
    checks = []
    for d, t, n, c in sorted(P, key=lambda x: x[0]["id"]):
        assert c or d["id"] in nas, d["id"]
        if c:
            checks.append({"property": d["id"], "quick_cmd": "python3 -m slatv %s" % d["id"],
                           "thorough_cmd": "python3 -m slatv %s --thorough" % d["id"],
                           "evidence_file": "evidence/%s.json" % d["id"],
                           "technique": t, "level": "other", "level_note": n})
    m = {"version": 1, "setup_cmd": "bash tool/build.sh build/slatx", "checks": checks, "not_applicable": NA,
         "notes": "All checks read /repo's current sources; see DESIGN.md."}
    with open(os.path.join(V, "MANIFEST.json"), "w") as f:
        json.dump(m, f, indent=1)
        f.write("\n")
    # validate
    try:
        import jsonschema
        ps = json.load(open("/root/.vp/PROPERTIES.schema.json"))
        for d, *_ in P:
            jsonschema.validate(d, ps)
        jsonschema.validate(m, json.load(open("/root/.vp/MANIFEST.schema.json")))
        print("valid: %d properties, %d checks, %d not applicable" % (len(P), len(checks), len(NA)))
    except ImportError:
        print("written (not validated: no jsonschema)")


main()
