#!/opt/veriftools/pyvenv/bin/python3
"""Decides one property: check.py PROPERTY [--tier quick|thorough] [--only CASE[:SUB]] [-v]

Builds /repo's current tree instrumented, explores every harness case of harness/PROPERTY.cpp with the solver,
replays candidate counterexamples on a plain build, writes evidence/PROPERTY.json."""
import argparse, glob, json, multiprocessing as mp, os, re, resource, shutil, subprocess, sys, tempfile, time
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, "engine"))
sys.dont_write_bytecode = True
from concurrent.futures import ThreadPoolExecutor
import sxbuild
from sxdrive import Explorer, d2b, b2d


def known_findings(prop):
    out = {}
    p = os.path.join(HERE, "known-findings.txt")
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r"known: property=(\S+) label=(\S+) (.*)", l.strip())
            if m and m.group(1) == prop:
                out[m.group(2)] = m.group(3)
    return out


def worker(conn, binary, case, mode, opts):
    tmp = tempfile.mkdtemp(prefix="sx")
    try:
        resource.setrlimit(resource.RLIMIT_AS, (7 << 30, 7 << 30))
        ex = Explorer(binary, case, mode, tmp, opts)
        ex.on_cand = lambda label, inp: conn.send(("cand", label, inp))
        r = ex.run()
        conn.send(("done", r))
    except BaseException as e:  # reported as inconclusive by the parent
        try:
            conn.send(("err", "%s: %s" % (type(e).__name__, str(e)[:200])))
        except Exception:
            pass
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
        conn.close()
        os._exit(0)


def replay(binary, case, sub, mode, inputs, tier, tmo=20, env_extra=None, memlimit=True):
    """-> (set of failed labels, output, status)"""
    tmp = tempfile.mkdtemp(prefix="sxr")
    try:
        f = os.path.join(tmp, "in")
        with open(f, "w") as h:
            for k, v in inputs.items():
                h.write("%s %x\n" % (k, v))
        env = {"SX_MODE": mode, "SX_INPUTS": f, "PATH": "/usr/bin:/bin", "LC_ALL": "C", "SX_TIER": tier, "SX_VERBOSE": "1", "UBSAN_OPTIONS": "print_stacktrace=1"}
        try:
            p = subprocess.run([binary, case, str(sub)], env=env, cwd=tmp, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=tmo,
                               preexec_fn=(lambda: resource.setrlimit(resource.RLIMIT_AS, (4 << 30, 4 << 30))) if memlimit else None)
        except subprocess.TimeoutExpired as e:
            return {"timeout"}, (e.stdout or b"").decode("latin1")[-4000:], "timeout"
        out = p.stdout.decode("latin1")
        fails = {re.sub(r"\W+", "_", x) for x in re.findall(r"^FAIL (.*)$", out, re.M)}
        if p.returncode not in (0, 1, 2):
            fails.add("crash")
        return fails, out[-6000:], p.returncode
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("property")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--only")
    ap.add_argument("-j", type=int, default=8)
    ap.add_argument("-v", action="store_true")
    ap.add_argument("--first", action="store_true", help="stop exploring at the first candidate (used when measuring planted bugs)")
    a = ap.parse_args()
    t0 = time.time()
    prop, tier = a.property, a.tier
    quick = tier == "quick"
    harness = os.path.join(HERE, "harness", prop + ".cpp")
    evid = os.path.join(HERE, "evidence")
    os.makedirs(evid, exist_ok=True)
    header = open(harness).read()
    known = known_findings(prop)
    bounds = [l[10:].strip() for l in header.splitlines() if l.startswith("// BOUNDS:")]
    assumptions = [l[10:].strip() for l in header.splitlines() if l.startswith("// ASSUME:")]
    ev = {"property": prop, "tier": tier, "seed": int(os.environ.get("VERIF_SEED", "1") or 1), "level": "model_checking",
          "coverage": {}, "assumptions": assumptions, "wall_s": 0.0, "violations": 0}

    def emit():
        ev["wall_s"] = round(time.time() - t0, 2)
        tmp = os.path.join(evid, prop + ".json.tmp")
        with open(tmp, "w") as f:
            json.dump(ev, f, indent=1)
        os.replace(tmp, os.path.join(evid, prop + ".json"))

    with ThreadPoolExecutor(8) as pool:
        binary = sxbuild.build_sym(harness, pool)
    t_build = time.time() - t0
    plain_p = subprocess.Popen(["nice", "-n", "5", sys.executable, os.path.join(HERE, "engine", "sxbuild.py"), "plain", harness],
                               stdout=subprocess.PIPE, stderr=subprocess.PIPE)
    cases = []
    for l in subprocess.check_output([binary], env={}).decode().splitlines():
        f = l.split()
        name, mode, nq, nt = f[0], f[1], int(f[2]), int(f[3])
        opts = {}
        for kv in f[4:]:
            k, v = kv.split("=")
            opts[k] = v if not re.match(r"^[\d.]+$", v) else float(v) if "." in v else int(v)
        for sub in range(nq if quick else nt):
            if a.only and a.only not in (name, "%s:%d" % (name, sub)):
                continue
            o = dict(opts, tier=tier, known=sorted(known))
            if not quick:
                o["time"] = float(opts.get("ttime", 600))
                o["max_paths"] = int(opts.get("tpaths", 40000))
                o["qtime"] = 20000
                o["qtime_check"] = 60000
            else:
                o.setdefault("time", 60.0)
            for k in ("ttime", "tpaths"):
                o.pop(k, None)
            cases.append((name, sub, mode, o))
    cases.sort(key=lambda c: -c[3].get("cost", 0))
    for c in cases:
        c[3].pop("cost", None)
    # ---------------------------------------------------------------- exploration
    results, cands, errors = {}, [], []
    deadline = t0 + (480 if quick else 3000)
    running, pending = {}, list(cases)
    ctx = mp.get_context("fork")
    while pending or running:
        while pending and len(running) < a.j:
            c = pending.pop(0)
            if time.time() > deadline:
                errors.append(("%s:%d" % c[:2], "not run: overall time budget")); continue
            r, w = ctx.Pipe(False)
            p = ctx.Process(target=worker, args=(w, binary, "%s:%d" % c[:2], c[2], c[3]))
            p.start(); w.close()
            running[p] = (c, r, time.time())
        moved = False
        for p, (c, r, ts) in list(running.items()):
            end = False
            try:
                while r.poll():
                    m = r.recv(); moved = True
                    if m[0] == "cand":
                        cands.append((c, m[1], m[2]))
                        if a.first and re.sub(r"\W+", "_", m[1]) not in known and m[1] not in known:
                            deadline = 0; pending = []
                    elif m[0] == "done":
                        results[c[:2]] = m[1]; end = True
                        if a.v:
                            x = m[1]
                            print("  %s:%d %s paths=%d checks=%d queries=%d unsat=%d sat=%d unk=%d cand=%d complete=%s %.1fs solver=%.1fs labels=%d val=%d/%d %s" % (
                                c[0], c[1], c[2], x.paths, x.checks, x.queries, x.unsat, x.sat, x.unknown, len(x.candidates), x.complete, x.wall, x.solver_s,
                                len(x.labels), x.mismatched, x.validated, x.incomplete or ""), flush=True)
                    elif m[0] == "err":
                        errors.append(("%s:%d" % c[:2], m[1])); end = True
            except EOFError:
                end = True
                if c[:2] not in results:
                    errors.append(("%s:%d" % c[:2], "worker died"))
            if not end and (time.time() - ts > c[3]["time"] + 60 or time.time() > deadline + 60):
                p.kill(); end = True
                errors.append(("%s:%d" % c[:2], "killed: exceeded its time budget"))
            if end:
                p.join(5); r.close(); del running[p]
        if not moved:
            time.sleep(0.01)
    t_explore = time.time() - t0 - t_build
    # ---------------------------------------------------------------- replay on the plain build
    so, se = plain_p.communicate()
    if plain_p.returncode:
        print(se.decode()[-3000:]); raise SystemExit("plain build failed")
    plain = so.decode().split()[0]
    viol, spurious, known_hit = {}, {}, {}
    tries = {}
    for c, label, inp in cands:
        k = (c[0], c[1], label)
        if k in viol or k in known_hit:
            continue
        tries[k] = tries.get(k, 0) + 1
        if tries[k] > 16 or len(viol) > 20:
            continue
        fails, out, st = replay(plain, c[0], c[1], c[2], inp, tier)
        if not fails:
            spurious[k] = (inp, st)
            if a.v: print("  spurious", k, inp)
        else:
            spurious.pop(k, None)
            for f in fails:
                (known_hit if f in known else viol)[(c[0], c[1], f)] = (c, inp, out)
    for k in list(spurious):
        if any(x[:2] == k[:2] for x in viol):
            spurious.pop(k)
    # sample of explored paths, re-executed on the independently compiled plain build
    validated = 0
    jobs = []
    for c in cases:
        r = results.get(c[:2])
        if r:
            n = 6 if quick else 40
            step = max(1, len(r.path_inputs) // n)
            jobs += [(c, i) for i in r.path_inputs[::step][:n]]
    if quick and len(jobs) > 240:
        jobs = jobs[::len(jobs) // 240 + 1]
    with ThreadPoolExecutor(8) as pool:
        for (c, inp), (fails, out, st) in zip(jobs, pool.map(lambda j: replay(plain, j[0][0], j[0][1], j[0][2], j[1], tier), jobs)):
            validated += 1
            for f in fails:
                (known_hit if f in known else viol).setdefault((c[0], c[1], f), (c, inp, out))
    # ---------------------------------------------------------------- report
    inconcl = []
    for c in cases:
        r = results.get(c[:2])
        if r is None:
            continue
        for k, n in r.incomplete.items():
            if k != "stopped after candidates" or not viol:
                inconcl.append("%s:%d %s x%d" % (c[0], c[1], k, n))
        if not viol and (r.checks == 0 or r.finished == 0):
            inconcl.append("%s:%d vacuous: no path evaluated an assertion" % c[:2])
    inconcl += ["%s %s" % e for e in errors]
    inconcl += ["%s:%d candidate %s did not reproduce on the plain build" % k for k in spurious]
    R = list(results.values())
    fns = set().union(*[r.functions for r in R]) if R else set()
    dem = subprocess.run(["c++filt"], input="\n".join(sorted(fns)).encode(), stdout=subprocess.PIPE).stdout.decode().split("\n")
    dem = sorted({re.sub(r"\[abi:\w+\]", "", d).split("(")[0] for d in dem if "fuzzylite::" in d.split("(")[0]})
    S = lambda f: sum(getattr(r, f) for r in R)
    checks, unsat = S("checks"), S("unsat")
    samples = []
    for c in cases:
        r = results.get(c[:2])
        if r and r.samples and len(samples) < 12:
            samples.append({"case": "%s:%d" % c[:2], "inputs": r.samples[-1]})
    ev["coverage"] = {
        "states": S("paths"), "transitions": S("branch_events"), "traces_validated_against_impl": validated, "samples": samples or ["none"],
        "meaning": "states: symbolic paths executed; transitions: symbolic branch decisions on them; traces_validated: path witnesses re-executed on an independently compiled build of the same sources",
        "cases": len(cases), "cases_completed": sum(r.complete for r in R), "assertions_evaluated": checks,
        "queries": S("queries"), "queries_unsat": unsat, "queries_sat": S("sat"), "queries_unknown": S("unknown"), "solver_s": round(S("solver_s"), 2),
        "encoder_conditions_cross_checked": S("validated"), "encoder_conditions_rounding_differences": S("mismatched"),
        "assertion_labels": sorted(set().union(*[r.labels for r in R])) if R else [],
        "functions_encoded": dem, "functions_encoded_count": len(dem),
        "bounds": bounds, "inconclusive": inconcl[:60], "inconclusive_count": len(inconcl),
        "exhaustive_within_bounds": not inconcl and not viol,
        "build_s": round(t_build, 1), "explore_s": round(t_explore, 1)}
    ev["violations"] = len(viol)
    rdir = os.path.join(evid, "replay")
    os.makedirs(rdir, exist_ok=True)
    for f in glob.glob(os.path.join(rdir, prop + "-*.txt")):
        os.unlink(f)
    lines = []
    for (name, sub, label), (c, inp, out) in viol.items():
        path = os.path.join(rdir, "%s-%s-%d-%s.txt" % (prop, name, sub, re.sub(r"\W+", "_", label)[:60]))
        with open(path, "w") as f:
            f.write("# replay: %s/replay.sh %s\nproperty %s\ncase %s %d\nmode %s\ntier %s\nlabel %s\n" % (HERE, path, prop, name, sub, c[2], tier, label))
            for k, v in inp.items():
                f.write("input %s %x\n" % (k, v))
            f.write("--- output of the plain build ---\n" + out)
        lines.append("VIOLATION property=%s replay=%s" % (prop, path))
    ev["coverage"]["known_findings_seen"] = sorted({k[2] for k in known_hit})
    emit()
    for label in sorted({k[2] for k in known_hit}):
        print("KNOWN-FINDING: property=%s %s: %s" % (prop, label, known[label]))
    for l in lines:
        print(l)
    if a.v or inconcl:
        for i in inconcl[:40]:
            print("inconclusive:", i)
    print("%s %s: %d cases, %d paths, %d assertions, %d queries (%d unsat, %d unknown), %d replays, %d violations, build %.0fs explore %.0fs total %.0fs" % (
        prop, tier, len(cases), S("paths"), checks, S("queries"), unsat, S("unknown"), validated, len(viol), t_build, t_explore, time.time() - t0))
    sys.stdout.flush()
    os._exit(1 if viol else 0)


if __name__ == "__main__":
    try:
        main()
    except sxbuild.BuildError as e:
        print("BUILD ERROR\n" + str(e)); sys.exit(3)
