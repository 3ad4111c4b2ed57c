#!/opt/veriftools/pyvenv/bin/python3
"""Rewrites the generated tables (section 3 on) of DESIGN.md from properties.jsonl, harness/*.cpp, known-findings.txt, seeded/ and tools/seed-results.txt."""
import json, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
out = ["<!-- generated by tools/design.py from here on -->", "## 3. Properties: what decides them", ""]
man = json.load(open(V + "/MANIFEST.json")); na = {x["property"]: x["reason"] for x in man["not_applicable"]}
results = {}
p = V + "/tools/seed-results.txt"
if os.path.exists(p):
    for l in open(p):
        f = l.split(None, 2)
        results[f[0]] = (f[1], f[2].strip())
cost = {}
for l in open(V + "/properties.jsonl"):
    d = json.loads(l); i = d["id"]
    out.append("### %s %s" % (i, d["title"]))
    if i in na:
        out += ["Not applicable: " + na[i], ""]; continue
    src = open(V + "/harness/%s.cpp" % i).read()
    out.append("* Oracle: %s" % src.split("\n")[0].lstrip("/ "))
    for b in re.findall(r"^// BOUNDS: *(.*)", src, re.M): out.append("* Bounds: " + b)
    for b in re.findall(r"^// ASSUME: *(.*)", src, re.M): out.append("* Assumes: " + b)
    cases = re.findall(r'^CASE\((\w+), *"(\w+)", *(\d+), *(\d+)', src, re.M)
    out.append("* Cases (arithmetic, sub-cases quick/thorough): " + ", ".join("%s (%s %s/%s)" % c for c in cases))
    out.append("* Why tests cannot: " + d["why_tests_cant"])
    out.append("")
out += ["## 4. Genuine defects found", "", "Repaired in `/repo` (\"fix:\" commits) or recorded in `known-findings.txt`:", ""]
for l in open(V + "/known-findings.txt"):
    if not l.startswith("#"): out.append("* " + l.strip())
out += ["", "## 5. Planted bugs and what catches them", "", "| planted bug | property | needs | result |", "|---|---|---|---|"]
for s in sorted(os.listdir(V + "/seeded")):
    m = json.load(open(V + "/seeded/%s/meta.json" % s))
    r = results.get(s, ("?", ""))
    out.append("| %s | %s | %s | %s %s |" % (s, m["property"], m["needs"], r[0], r[1]))
t = open(V + "/DESIGN.md").read().split("<!-- generated")[0]
open(V + "/DESIGN.md", "w").write(t + "\n".join(out) + "\n")
