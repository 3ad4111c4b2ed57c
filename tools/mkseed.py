#!/usr/bin/env python3
"""tools/mkseed.py FILE: FILE defines seeds via seed(id, prop, edits, needs, breaks, demo); edits = [(file, old, new)].  Writes seeded/<id>/."""
import os, subprocess, sys, json
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
R = "/tmp/s/mk"
DEMO = """#!/bin/bash
# exit 0 when the library behaves as the property says
set -e
D=$(mktemp -d); trap 'rm -rf "$D"' EXIT
H=$(cd "$(dirname "$0")" && pwd)
g++ -std=c++11 -w -I. "$H/demo.cpp" -o "$D/demo" _build/bin/libfuzzylite-static.a
timeout 120 "$D/demo"
"""
HEAD = """#include <cmath>
#include <cstdio>
#include <cstdlib>
#include <memory>
#include <string>
#include <vector>
#include <unistd.h>
#include "fuzzylite/Headers.h"
using namespace fl;
static void expect(bool ok, const char* what) { if (!ok) { std::printf("FAIL %s\\n", what); std::exit(1); } }
int main() {
"""
def seed(id, prop, edits, needs, breaks, demo):
    if not os.path.isdir(R):
        subprocess.check_call(["git", "clone", "-q", "/repo", R])
    subprocess.check_call("git fetch -q origin && git checkout -qf origin/HEAD && git clean -qfd", shell=True, cwd=R)
    for f, old, new in edits:
        p = os.path.join(R, f); s = open(p).read(); assert s.count(old) == 1, (id, f, s.count(old)); open(p, "w").write(s.replace(old, new))
    d = os.path.join(V, "seeded", id); os.makedirs(d, exist_ok=True)
    open(d + "/patch.diff", "w").write(subprocess.check_output(["git", "diff"], cwd=R, text=True))
    open(d + "/demo.sh", "w").write(DEMO); os.chmod(d + "/demo.sh", 0o755)
    pre, body = demo if isinstance(demo, tuple) else ("", demo)
    open(d + "/demo.cpp", "w").write(HEAD.replace("int main() {", pre + "\nint main() {") + body + '\n    std::printf("ok\\n");\n    return 0;\n}\n')
    json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, open(d + "/meta.json", "w"), indent=1)
exec(compile(open(sys.argv[1]).read(), sys.argv[1], "exec"))
