#!/opt/veriftools/pyvenv/bin/python3
"""Single source of properties.jsonl and MANIFEST.json: python3 tools/specs.py rewrites both."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []
N = []


def prop(id, title, statement, over, text, why, files, mech, note, observe=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech, note=note, observe=observe or []))


def na(id, title, statement, over, text, why, files, mech, reason):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech, note=None, observe=[]))
    N.append(dict(property=id, reason=reason))


with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "specdata.py")) as f:
    exec(compile(f.read(), "specdata.py", "exec"))

TECH = "solver-based: dynamic symbolic execution of the instrumented LLVM IR of the real sources, z3 decides every branch and assertion"


def main():
    out = []
    for p in P:
        assert len(p["title"]) <= 80, p["id"]
        h = os.path.join(V, "harness", p["id"] + ".cpp")
        if p["note"] is not None and not os.path.exists(h):
            print("no harness yet:", p["id"]); continue
        out.append(p)
    with open(os.path.join(V, "properties.jsonl"), "w") as f:
        for p in out:
            a = {"files": p["files"], "mechanism": [{"name": n, "where": w} for n, w in p["mech"]]}
            if p["observe"]:
                a["observe_at"] = p["observe"]
            a["hook_needed"] = None
            f.write(json.dumps({"id": p["id"], "title": p["title"], "statement": p["statement"], "quantifier": {"over": p["over"], "text": p["text"]},
                                "why_tests_cant": p["why"], "anchors": a}) + "\n")
    m = {"version": 1, "setup_cmd": "./setup.sh", "checks": [
        {"property": p["id"], "quick_cmd": "./check.py %s --tier quick" % p["id"], "thorough_cmd": "./check.py %s --tier thorough" % p["id"],
         "evidence_file": "evidence/%s.json" % p["id"], "technique": TECH, "level": "model_checking", "level_note": p["note"]} for p in out if p["note"] is not None],
        "not_applicable": N,
        "notes": "No hooks are needed: the checks compile /repo's sources (unmodified, working tree) with an LLVM instrumentation pass (engine/sxpass.cpp). DESIGN.md explains the engine, bounds and trust."}
    with open(os.path.join(V, "MANIFEST.json"), "w") as f:
        json.dump(m, f, indent=1)
    try:
        import jsonschema
        for l in open(os.path.join(V, "properties.jsonl")):
            jsonschema.validate(json.loads(l), json.load(open("/root/.vp/PROPERTIES.schema.json")))
        jsonschema.validate(m, json.load(open("/root/.vp/MANIFEST.schema.json")))
    except FileNotFoundError:
        pass
    print(len(out), "properties,", len(m["checks"]), "checks,", len(N), "not applicable")


main()
