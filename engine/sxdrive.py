"""Exhaustive dynamic symbolic execution of one harness case.

The instrumented binary is run on concrete inputs; it logs every branch whose condition depends on symbolic
inputs as an expression.  Every not-yet-covered direction is decided by the SMT solver; when the queue empties,
every feasible path (within the stated input ranges) has been executed and every assertion on it discharged.
"""
import re, os, random, subprocess, time, math
from fractions import Fraction
import z3
from sxtrace import *


class Result:
    def __init__(self, case, mode):
        self.case, self.mode = case, mode
        self.paths = self.queries = self.checks = self.unsat = self.sat = self.unknown = 0
        self.concrete_checks = 0
        self.solver_s = 0.0
        self.candidates = []      # (label, inputs)
        self.incomplete = {}      # reason -> count
        self.functions = set()
        self.reached = set()
        self.branch_events = 0
        self.labels = set()
        self.nodes = 0
        self.wall = 0.0
        self.samples = []
        self.complete = False
        self.finished = 0
        self.path_inputs = []
        self.validated = self.mismatched = 0
        self.real_fallback = 0

    def note(self, why):
        self.incomplete[why] = self.incomplete.get(why, 0) + 1


def model_double(v):
    """z3 numeral (Real) -> nearest double"""
    if z3.is_rational_value(v):
        fr = Fraction(v.numerator_as_long(), v.denominator_as_long())
    elif z3.is_algebraic_value(v):
        a = v.approx(25)
        fr = Fraction(a.numerator_as_long(), a.denominator_as_long())
    else:
        return 0.0
    try:
        return float(fr)
    except OverflowError:
        return math.inf


def fp_bits(m, v):
    if z3.is_true(m.eval(z3.fpIsNaN(v), model_completion=True)):
        return 0x7FF8000000000000
    b = m.eval(z3.fpToIEEEBV(v), model_completion=True)
    b = z3.simplify(b)
    return b.as_long() if z3.is_bv_value(b) else 0


class Explorer:
    def __init__(self, binary, case, mode, tmp, opts=None):
        self.bin, self.case, self.mode, self.tmp = binary, case, mode, tmp
        o = dict(max_paths=4000, time=300.0, qtime=5000, run_timeout=20, max_cand=3, qtime_check=20000, stop_on_cand=True, tier='quick', validate=40)
        o.update(opts or {})
        self.o = o
        self.res = Result(case, mode)
        self.cache = {}
        self.keep = []
        self.real = mode == "real"
        self.on_cand = None
        self.known_seen = {}
        self.rng = random.Random(int(os.environ.get("VERIF_SEED", "1") or 1))
        self.t0 = time.time()

    def cand(self, c):
        k = re.sub(r"\W+", "_", c[0])
        if k in self.o.get("known", ()):  # listed finding: reported, but does not stop the exploration
            self.known_seen[k] = self.known_seen.get(k, 0) + 1
            if self.known_seen[k] <= 3 and self.on_cand:
                self.on_cand(*c)
            return
        if len(self.res.candidates) < 200:
            self.res.candidates.append(c)
            if self.on_cand:
                self.on_cand(*c)

    def execute(self, inputs, force):
        inp, trc = os.path.join(self.tmp, "in"), os.path.join(self.tmp, "tr")
        with open(inp, "w") as f:
            for k, v in inputs.items():
                f.write("%s %x\n" % (k, v))
        try:
            os.unlink(trc)
        except OSError:
            pass
        env = {"SX_MODE": self.mode, "SX_INPUTS": inp, "SX_TRACE": trc, "PATH": "/usr/bin:/bin", "LC_ALL": "C", "SX_TIER": self.o.get("tier", "quick")}
        if force:
            env["SX_FORCE"] = force
        try:
            p = subprocess.run([self.bin, *self.case.split(":")], env=env, cwd=self.tmp, stdout=subprocess.DEVNULL,
                               stderr=subprocess.PIPE, timeout=self.o["run_timeout"])
        except subprocess.TimeoutExpired:
            return "timeout", None
        if not os.path.exists(trc):
            return "crash:%d" % p.returncode, None
        return None, Trace(open(trc, "rb").read())

    # -------------------------------------------------------------- solving
    def range_constraints(self, tr, mask):
        out = []
        for i, (name, node, ty, lo, hi) in enumerate(tr.inputs):
            if not (mask >> i) & 1:
                continue
            if ty == 1:
                if self.real:
                    v = z3.Real(name)
                    l, h = Fraction(b2d(lo)), Fraction(b2d(hi))
                    out += [v >= z3.Q(l.numerator, l.denominator), v <= z3.Q(h.numerator, h.denominator)]
                else:
                    v = z3.FP(name, FP64)
                    out += [z3.fpGEQ(v, z3.fpBVToFP(z3.BitVecVal(lo, 64), FP64)), z3.fpLEQ(v, z3.fpBVToFP(z3.BitVecVal(hi, 64), FP64))]
            elif ty == 3:
                v = z3.BitVec(name, 32)
                out += [v >= z3.BitVecVal(lo, 32), v <= z3.BitVecVal(hi, 32)]
            elif ty == 4:
                out.append(z3.BitVec(name, 8) != 0)
        return out

    def cond(self, T, e):
        """(term, node) of event e in its recorded direction"""
        t = T.term(e[1])
        if isinstance(t, tuple):
            raise ValueError("fptoi term")
        return t if e[2] else z3.Not(t)

    def slice(self, T, target, pcs):
        """constraints of pcs transitively sharing inputs with target"""
        mask, fns = T.deps(target[1])
        sel, rest = [], list(pcs)
        changed = True
        while changed:
            changed = False
            nr = []
            for p in rest:
                m, f = T.deps(p[1])
                if m & mask:
                    sel.append(p)
                    mask |= m
                    fns = fns | f
                    changed = True
                else:
                    nr.append(p)
            rest = nr
        return sel, mask, fns

    def solve(self, T, target_term, target_ev, pcs, timeout):
        """SAT check of target_term and pcs. returns ('unsat'|'sat'|'unknown', model inputs)"""
        sel, mask, fns = self.slice(T, target_ev, pcs)
        terms = [self.cond_cached(T, p) for p in sel] + [target_term]
        key = frozenset(t.get_id() for t in terms)
        hit = self.cache.get(key)
        if hit is not None:
            return hit
        cons = terms + self.range_constraints(T.tr, mask)
        if fns:
            cons += T.axioms(fns)
        t0 = time.time()
        self.res.queries += 1
        r, m = self.decide(cons, timeout)
        if r == "unknown":
            for m in self.pinned(T, cons, mask, 4, 1000):
                r = "sat"
                break
        self.res.solver_s += time.time() - t0
        self.last = (T, cons, mask)
        out = (r, self.values(T, m, mask) if r == "sat" else None)
        if r != "unknown":
            self.cache[key] = out
            self.keep.append(terms)
        return out

    def alternates(self, n):
        """further models of the last query, for candidates that sit on a rounding boundary"""
        T, cons, mask = self.last
        t0 = time.time()
        out = [self.values(T, m, mask) for m in self.pinned(T, cons, mask, n, 1500)]
        self.res.solver_s += time.time() - t0
        return out

    def attempt(self, make, cons, timeout):
        try:
            s = make()
            s.set("timeout", int(timeout))
            s.add(cons)
            r = s.check()
            return r, (s.model() if r == z3.sat else None)
        except z3.Z3Exception:
            return z3.unknown, None

    def decide(self, cons, timeout):
        if self.real:
            plan = [(z3.Solver, min(timeout, 1500)), (lambda: z3.SolverFor("QF_NRA"), timeout),
                    (lambda: z3.Then("simplify", "solve-eqs", "elim-term-ite", "smt").solver(), timeout)]
        else:
            plan = [(lambda: z3.SolverFor("QF_FPBV"), timeout), (z3.Solver, timeout)]
        for make, t in plan:
            r, m = self.attempt(make, cons, t)
            if r == z3.sat:
                return "sat", m
            if r == z3.unsat:
                return "unsat", None
        return "unknown", None

    def pinned(self, T, cons, mask, tries, timeout):
        """models with some inputs pinned to random grid values (search help: decides 'sat' only)"""
        ins = [x for i, x in enumerate(T.tr.inputs) if (mask >> i) & 1 and x[2] in (1, 3)]
        for t in range(tries):
            extra = []
            for name, node, ty, lo, hi in ins:
                if self.rng.random() < (0.35, 0.6, 0.85)[t % 3]:
                    if ty == 1:
                        l, h = b2d(lo), b2d(hi)
                        v = l + (h - l) * self.rng.randrange(1, 64) / 64.0
                        if self.real:
                            fr = Fraction(v)
                            extra.append(z3.Real(name) == z3.Q(fr.numerator, fr.denominator))
                        else:
                            extra.append(z3.FP(name, FP64) == z3.FPVal(v, FP64))
            if not extra:
                continue
            r, m = self.attempt(z3.Solver, cons + extra, timeout)
            if r == z3.sat:
                yield m

    def values(self, T, m, mask):
        vals = {}
        for i, (name, node, ty, lo, hi) in enumerate(T.tr.inputs):
            if not (mask >> i) & 1:
                continue
            if ty in (1, 2):
                if self.real:
                    vals[name] = d2b(model_double(m.eval(z3.Real(name), model_completion=True)))
                else:
                    vals[name] = fp_bits(m, z3.FP(name, FP64))
            elif ty == 3:
                vals[name] = m.eval(z3.BitVec(name, 32), model_completion=True).as_long()
            elif ty == 4:
                vals[name] = m.eval(z3.BitVec(name, 8), model_completion=True).as_long()
            elif ty == 5:
                vals[name] = 1 if z3.is_true(m.eval(z3.Bool(name), model_completion=True)) else 0
        return vals

    def cond_cached(self, T, e):
        k = ("c", e[1], e[2])
        c = T.memo.get(k)
        if c is None:
            c = self.cond(T, e)
            if self.mode == "real":
                pass
            T.memo[k] = c
        return c

    def rewrite_fptoi(self, T, tr):
        """real mode: CMP(fptosi(x) == k) becomes a range of x"""
        for i, n in enumerate(tr.nodes):
            if n[0] == K_CMP and n[3] == 32:
                a = tr.nodes[n[4]]
                if a[0] == K_CAST and a[3] in (41, 42):
                    x = T.term(a[4])
                    k = tr.nodes[n[5]][8]
                    w = a[2]
                    if k >= 1 << (w - 1):
                        k -= 1 << w
                    c = z3.And(x > -1, x < 1) if k == 0 else z3.And(x >= k, x < k + 1) if k > 0 else z3.And(x > k - 1, x <= k)
                    T.memo[i] = c
                    T.memo[n[4]] = ("fptoi", x)

    # -------------------------------------------------------------- exploration
    def run(self):
        t0 = time.time()
        res, o = self.res, self.o
        blobs = set()
        queue = [({}, "", 0, None)]
        while queue:
            if res.paths >= o["max_paths"]:
                res.note("max_paths (%d pending)" % len(queue)); break
            if time.time() - t0 > o["time"]:
                res.note("time budget (%d pending)" % len(queue)); break
            if o["stop_on_cand"] and len(res.candidates) >= o["max_cand"] * 8:
                res.note("stopped after candidates"); break
            inputs, force, bound, expect = queue.pop()
            err, tr = self.execute(inputs, force if self.real else "")
            res.paths += 1
            if err:
                if err.startswith("crash") or err == "timeout":
                    self.cand((err, dict(inputs)))
                    res.note(err)
                continue
            if tr.status == 3:
                self.cand(("uncaught-exception", {n[0]: tr.nodes[n[1]][8] for n in tr.inputs}))
            if tr.status in (4, 5, 6):
                res.note("runtime status %d" % tr.status)
            res.nodes += len(tr.nodes)
            if tr.functions not in blobs:
                blobs.add(tr.functions)
                res.functions.update(x.decode() for x in tr.functions.split(b"\0") if x)
            T = Translator(tr, self.mode)
            if self.real:
                self.rewrite_fptoi(T, tr)
            cur = dict(inputs)
            for (name, node, ty, lo, hi) in tr.inputs:
                cur[name] = tr.nodes[node][8]
            pcs = []
            decs = ""   # decisions so far (branch-type events)
            for idx, e in enumerate(tr.events):
                kind, expr, taken, site, st, aux = e
                if kind in (E_BRANCH, E_CONC):
                    res.branch_events += 1
                    if not self.real and expect is not None and idx == expect[0]:
                        if expect[1] != taken:
                            res.note("divergence")
                            break
                    try:
                        c = self.cond_cached(T, e)
                        if idx >= bound:
                            neg = (kind, expr, 1 - taken, site, st, aux)
                            r, vals = self.solve(T, self.cond_cached(T, neg), neg, pcs, o["qtime"])
                            if r == "sat":
                                ni = dict(cur); ni.update(vals)
                                nf = decs + ("-" if kind == E_CONC else str(1 - taken))
                                queue.append((ni, nf, idx + 1, (idx, 1 - taken)))
                                res.sat += 1
                            elif r == "unsat":
                                res.unsat += 1
                            else:
                                res.unknown += 1
                                res.note("unknown branch@" + tr.strings[st])
                    except (ValueError, KeyError, z3.Z3Exception) as ex:
                        res.note("encode:%s@%s" % (str(ex)[:60], tr.strings[st]))
                    decs += "-" if kind == E_CONC else str(taken)
                    pcs.append(e)
                elif kind == E_ASSUME:
                    if expr == 0:
                        break
                    if taken:
                        pcs.append(e)
                    else:
                        want = (kind, expr, 1, site, st, aux)
                        if idx >= bound:
                            try:
                                r, vals = self.solve(T, self.cond_cached(T, want), want, pcs, o["qtime"])
                            except (ValueError, KeyError, z3.Z3Exception) as ex:
                                res.note("encode-assume:%s" % str(ex)[:60]); break
                            if r == "sat":
                                ni = dict(cur); ni.update(vals)
                                # bound stays at the last handled event: nothing after the assume was seen
                                queue.append((ni, decs, idx, None if self.same_inputs(ni, cur) else ("assume", idx)))
                                if self.same_inputs(ni, cur):
                                    queue.pop(); res.note("assume not realisable in doubles")
                            elif r == "unknown":
                                res.unknown += 1; res.note("unknown assume")
                            break
                        else:
                            break
                elif kind == E_CHECK:
                    label = tr.strings[st]
                    res.labels.add(label)
                    if idx < bound and not (isinstance(expect, tuple) and expect[0] == "assume"):
                        if expr:
                            pcs_chk = None
                        continue
                    res.checks += 1
                    if expr == 0:
                        res.concrete_checks += 1
                        if not taken:
                            self.cand((label, dict(cur)))
                        continue
                    if not taken and not tr.impure:
                        self.cand((label, dict(cur)))
                    bad = (kind, expr, 0, site, st, aux)
                    try:
                        r, vals = self.solve(T, self.cond_cached(T, bad), bad, pcs, o["qtime_check"])
                    except (ValueError, KeyError, z3.Z3Exception) as ex:
                        res.note("encode-check:%s@%s" % (str(ex)[:60], label)); continue
                    if r == "sat":
                        ni = dict(cur); ni.update(vals)
                        self.cand((label, ni))
                        res.sat += 1
                        if self.real:
                            for alt in self.alternates(6):
                                na = dict(cur); na.update(alt)
                                self.cand((label, na))
                    elif r == "unsat":
                        res.unsat += 1
                    else:
                        res.unknown += 1
                        res.note("unknown check:" + label)
                elif kind == E_LOST:
                    res.note("lost:" + tr.strings[st])
                elif kind == E_REACH:
                    res.reached.add(tr.strings[st])
            self.validate(T, tr)
            if tr.status == 0:
                res.finished += 1
            if len(self.res.path_inputs) < 400:
                res.path_inputs.append(dict(cur))
            if len(res.samples) < 3:
                res.samples.append({k: (repr(b2d(v)) if any(n[0] == k and n[2] in (1, 2) for n in tr.inputs) else v) for k, v in cur.items()})
        res.complete = not queue and not res.incomplete
        res.wall = time.time() - t0
        return res

    def validate(self, T, tr):
        """encoder self-check: conditions evaluated by z3 on this run's inputs must agree with the values computed by the implementation"""
        if self.res.validated >= self.o["validate"] or tr.impure:
            return
        sub = None
        n = 0
        for e in tr.events:
            if e[0] not in (E_BRANCH, E_CHECK) or e[1] == 0 or n >= 6:
                continue
            try:
                m, f = T.deps(e[1])
                if f or bin(m).count("1") > 12:
                    continue
                t = T.term(e[1])
                if sub is None:
                    sub = []
                    for (name, node, ty, lo, hi) in tr.inputs:
                        v = tr.nodes[node][8]
                        if ty in (1, 2):
                            if self.real:
                                fr = Fraction(b2d(v)); sub.append((z3.Real(name), z3.Q(fr.numerator, fr.denominator)))
                            else:
                                sub.append((z3.FP(name, FP64), z3.fpBVToFP(z3.BitVecVal(v, 64), FP64)))
                        elif ty == 3: sub.append((z3.BitVec(name, 32), z3.BitVecVal(v, 32)))
                        elif ty == 4: sub.append((z3.BitVec(name, 8), z3.BitVecVal(v, 8)))
                        elif ty == 5: sub.append((z3.Bool(name), z3.BoolVal(bool(v))))
                r = z3.simplify(z3.substitute(t, *sub))
            except (ValueError, KeyError, z3.Z3Exception, OverflowError):
                continue
            if z3.is_true(r) or z3.is_false(r):
                n += 1
                self.res.validated += 1
                if z3.is_true(r) != bool(e[2]):
                    self.res.mismatched += 1
                    if not self.real:
                        self.res.note("encoder mismatch@" + tr.strings[e[4]])

    @staticmethod
    def same_inputs(a, b):
        return all(b.get(k) == v for k, v in a.items())
