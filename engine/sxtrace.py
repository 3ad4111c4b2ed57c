"""Trace format of sxrt.c and its translation to SMT terms (z3 API)."""
import struct
from fractions import Fraction
import math
import z3

K_CONST, K_INPUT, K_BIN, K_CMP, K_UN, K_CAST, K_ITE, K_FN, K_EXTRACT, K_CONCAT, K_FMT, K_RT = range(1, 13)
E_BRANCH, E_CONC, E_ASSUME, E_CHECK, E_LOST, E_REACH = range(1, 7)
OP_NAMES = {}
(F_EXP, F_POW, F_SQRT, F_COS, F_SIN, F_LOG, F_FABS, F_FLOOR, F_CEIL, F_FMOD, F_TAN, F_ACOS, F_ASIN, F_ATAN, F_ATAN2,
 F_COSH, F_SINH, F_TANH, F_LOG10, F_ACOSH, F_ASINH, F_ATANH, F_LOG1P, F_ROUND, F_TRUNC, F_FMIN, F_FMAX, F_COPYSIGN,
 F_RINT, F_CBRT, F_HYPOT, F_EXP2, F_LOG2, F_EXPM1) = range(1, 35)
FN_NAME = {F_EXP: "exp", F_POW: "pow", F_COS: "cos", F_SIN: "sin", F_LOG: "log", F_FMOD: "fmod", F_TAN: "tan",
           F_ACOS: "acos", F_ASIN: "asin", F_ATAN: "atan", F_ATAN2: "atan2", F_COSH: "cosh", F_SINH: "sinh",
           F_TANH: "tanh", F_LOG10: "log10", F_ACOSH: "acosh", F_ASINH: "asinh", F_ATANH: "atanh", F_LOG1P: "log1p",
           F_ROUND: "round", F_TRUNC: "trunc", F_COPYSIGN: "copysign", F_RINT: "rint", F_CBRT: "cbrt",
           F_HYPOT: "hypot", F_EXP2: "exp2", F_LOG2: "log2", F_EXPM1: "expm1", F_SQRT: "sqrt"}
BINARY = {F_POW, F_FMOD, F_ATAN2, F_COPYSIGN, F_HYPOT, F_FMIN, F_FMAX}


def d2b(d):
    return struct.unpack("<Q", struct.pack("<d", d))[0]


def b2d(b):
    return struct.unpack("<d", struct.pack("<Q", b))[0]


class Trace:
    __slots__ = ("status", "nodes", "events", "inputs", "strings", "impure", "functions")

    def __init__(self, data):
        magic, self.status, nn, ne, ni, ns, self.impure, _ = struct.unpack_from("<8I", data, 0)
        if magic != 0x53585431:
            raise ValueError("bad trace")
        o = 32
        self.nodes = list(struct.iter_unpack("<BBHIIIIIQ", data[o:o + 32 * nn]))
        o += 32 * nn
        self.events = list(struct.iter_unpack("<IIIIII", data[o:o + 24 * ne]))
        o += 24 * ne
        self.inputs = []
        for k in range(ni):
            nm, node, ty, lo, hi = struct.unpack_from("<96sIIQQ", data, o)
            self.inputs.append((nm.split(b"\0")[0].decode(), node, ty, lo, hi))
            o += 120
        self.strings = []
        for k in range(ns):
            (l,) = struct.unpack_from("<I", data, o)
            self.strings.append(data[o + 4:o + 4 + l].decode("latin1"))
            o += 4 + l
        self.functions = data[o:]   # names of the library functions entered


FP64 = z3.Float64()
RNE = z3.RNE()
R = z3.RealSort()


class Translator:
    """Translates nodes of one trace to z3 terms. mode: 'real' or 'fp'."""

    def __init__(self, tr, mode):
        self.tr, self.mode, self.memo, self.info = tr, mode, {}, {}
        self.real = mode == "real"

    # ---- dependencies: (bitmask of inputs, frozenset of uninterpreted/axiomatised FN nodes)
    def deps(self, n):
        r = self.info.get(n)
        if r is not None:
            return r
        nodes, info = self.tr.nodes, self.info
        stack = [n]
        while stack:
            x = stack[-1]
            if x in info:
                stack.pop()
                continue
            kind, fp, w, op, a, b, c, _, val = nodes[x]
            if kind == K_CONST:
                info[x] = (0, frozenset())
            elif kind == K_INPUT:
                info[x] = (1 << op, frozenset())
            else:
                ch = self.children(x)
                todo = [y for y in ch if y not in info]
                if todo:
                    stack.extend(todo)
                    continue
                m, f = 0, frozenset()
                for y in ch:
                    m |= info[y][0]
                    if info[y][1]:
                        f = f | info[y][1]
                if kind == K_FN and self.axiomatic(x):
                    f = f | {x}
                info[x] = (m, f)
            stack.pop()
        return info[n]

    def axiomatic(self, x):
        op = self.tr.nodes[x][3]
        if not self.real:
            return op in (F_EXP, F_COS, F_POW)
        if op in (F_FABS, F_FLOOR, F_CEIL, F_FMIN, F_FMAX, F_ROUND, F_TRUNC, F_RINT):
            return False
        return True

    def children(self, x):
        kind, fp, w, op, a, b, c, _, val = self.tr.nodes[x]
        if kind in (K_BIN, K_CMP):
            return (a, b)
        if kind in (K_UN, K_CAST, K_EXTRACT, K_FMT, K_RT):
            return (a,)
        if kind == K_ITE:
            return (a, b, c)
        if kind == K_FN:
            return (a, b) if op in BINARY else (a,)
        if kind == K_CONCAT:
            return (a, b)
        return ()

    def term(self, n):
        memo = self.memo
        if n in memo:
            return memo[n]
        stack = [n]
        while stack:
            x = stack[-1]
            if x in memo:
                stack.pop()
                continue
            todo = [y for y in self.children(x) if y not in memo]
            if todo:
                stack.extend(todo)
                continue
            memo[x] = self.build(x)
            stack.pop()
        return memo[n]

    def fconst(self, bits):
        if self.real:
            d = b2d(bits)
            if d != d or d in (math.inf, -math.inf):
                raise ValueError("non-finite constant in real mode")
            f = Fraction(d)
            return z3.RealVal(str(f.numerator) + "/" + str(f.denominator)) if f.denominator != 1 else z3.RealVal(f.numerator)
        return z3.fpBVToFP(z3.BitVecVal(bits, 64), FP64)

    def build(self, x):
        kind, fp, w, op, a, b, c, _, val = self.tr.nodes[x]
        T = self.memo
        if kind == K_CONST:
            if fp:
                return self.fconst(val)
            return z3.BoolVal(bool(val)) if w == 1 else z3.BitVecVal(val, w)
        if kind == K_INPUT:
            name = self.tr.inputs[op][0]
            if fp:
                return z3.Real(name) if self.real else z3.FP(name, FP64)
            return z3.Bool(name) if w == 1 else z3.BitVec(name, w)
        if kind == K_BIN:
            p, q = T[a], T[b]
            if fp:
                if self.real:
                    if op == 14: return p + q
                    if op == 16: return p - q
                    if op == 18: return p * q
                    if op == 21: return p / q
                    if op == 24: return self.fmod(p, q)
                else:
                    if op == 14: return z3.fpAdd(RNE, p, q)
                    if op == 16: return z3.fpSub(RNE, p, q)
                    if op == 18: return z3.fpMul(RNE, p, q)
                    if op == 21: return z3.fpDiv(RNE, p, q)
                raise ValueError("fp op %d" % op)
            if w == 1:
                if op in (28, 17): return z3.And(p, q)
                if op == 29: return z3.Or(p, q)
                if op in (30, 13, 15): return z3.Xor(p, q)
                raise ValueError("i1 op %d" % op)
            return {13: lambda: p + q, 15: lambda: p - q, 17: lambda: p * q, 19: lambda: z3.UDiv(p, q), 20: lambda: p / q,
                    22: lambda: z3.URem(p, q), 23: lambda: z3.SRem(p, q), 25: lambda: p << q, 26: lambda: z3.LShR(p, q),
                    27: lambda: p >> q, 28: lambda: p & q, 29: lambda: p | q, 30: lambda: p ^ q}[op]()
        if kind == K_CMP:
            p, q = T[a], T[b]
            isf = (c >> 8) & 1
            if isf:
                if self.real:
                    if op in (1, 9): return p == q
                    if op in (2, 10): return p > q
                    if op in (3, 11): return p >= q
                    if op in (4, 12): return p < q
                    if op in (5, 13): return p <= q
                    if op in (6, 14): return p != q
                    return z3.BoolVal(op == 7)
                un = lambda: z3.Or(z3.fpIsNaN(p), z3.fpIsNaN(q))
                if op == 1: return z3.fpEQ(p, q)
                if op == 2: return z3.fpGT(p, q)
                if op == 3: return z3.fpGEQ(p, q)
                if op == 4: return z3.fpLT(p, q)
                if op == 5: return z3.fpLEQ(p, q)
                if op == 6: return z3.And(z3.Not(un()), z3.Not(z3.fpEQ(p, q)))
                if op == 7: return z3.Not(un())
                if op == 8: return un()
                if op == 9: return z3.Or(un(), z3.fpEQ(p, q))
                if op == 10: return z3.Not(z3.fpLEQ(p, q))
                if op == 11: return z3.Not(z3.fpLT(p, q))
                if op == 12: return z3.Not(z3.fpGEQ(p, q))
                if op == 13: return z3.Not(z3.fpGT(p, q))
                if op == 14: return z3.Not(z3.fpEQ(p, q))
            if (c & 255) == 1:
                if op == 32: return p == q
                if op == 33: return p != q
                if op in (34, 40): return z3.And(p, z3.Not(q))
                if op in (36, 38): return z3.And(z3.Not(p), q)
                raise ValueError("i1 cmp")
            return {32: lambda: p == q, 33: lambda: p != q, 34: lambda: z3.UGT(p, q), 35: lambda: z3.UGE(p, q),
                    36: lambda: z3.ULT(p, q), 37: lambda: z3.ULE(p, q), 38: lambda: p > q, 39: lambda: p >= q,
                    40: lambda: p < q, 41: lambda: p <= q}[op]()
        if kind == K_UN:
            return -T[a] if self.real else z3.fpNeg(T[a])
        if kind == K_CAST:
            p = T[a]
            wi = b & 255
            if op == 38:
                return z3.Extract(0, 0, p) == 1 if w == 1 else z3.Extract(w - 1, 0, p)
            if op == 39:
                return z3.If(p, z3.BitVecVal(1, w), z3.BitVecVal(0, w)) if wi == 1 else z3.ZeroExt(w - wi, p)
            if op == 40:
                return z3.If(p, z3.BitVecVal(-1, w), z3.BitVecVal(0, w)) if wi == 1 else z3.SignExt(w - wi, p)
            if op in (43, 44):  # int -> fp
                if wi == 1:
                    one = -1 if op == 44 else 1
                    return z3.If(p, self.fconst(d2b(float(one))), self.fconst(d2b(0.0)))
                ka = self.tr.nodes[a]
                if ka[0] == K_CAST and ka[3] == 39 and (ka[5] & 255) == 1:
                    return z3.If(T[ka[4]], self.fconst(d2b(1.0)), self.fconst(d2b(0.0)))
                if self.real:
                    return z3.ToReal(z3.BV2Int(p, op == 44))
                return z3.fpSignedToFP(RNE, p, FP64) if op == 44 else z3.fpUnsignedToFP(RNE, p, FP64)
            if op in (41, 42):
                if self.real:
                    return ("fptoi", p)
                return z3.fpToSBV(z3.RTZ(), p, z3.BitVecSort(w)) if op == 42 else z3.fpToUBV(z3.RTZ(), p, z3.BitVecSort(w))
            if op == 49:
                if fp:
                    return z3.fpBVToFP(p, FP64)
                return z3.fpToIEEEBV(p)
            raise ValueError("cast %d" % op)
        if kind == K_ITE:
            return z3.If(T[a], T[b], T[c])
        if kind == K_EXTRACT:
            p = T[a]
            if self.tr.nodes[a][1]:
                p = z3.fpToIEEEBV(p)
            return z3.Extract(8 * op + 7, 8 * op, p)
        if kind == K_CONCAT:
            return z3.Concat(T[a], T[b])
        if kind == K_RT:
            if self.real:
                return T[a]
            return z3.FP("rt!%d" % a, FP64)
        if kind == K_FMT:
            return z3.BitVec("fmt!%d!%d" % (a, op), 8)
        if kind == K_FN:
            return self.fn(x)
        raise ValueError("kind %d" % kind)

    def fmod(self, p, q):
        t = p / q
        k = z3.If(t >= 0, z3.ToInt(t), -z3.ToInt(-t))
        return p - q * z3.ToReal(k)

    def ufp(self, name, n, *args):
        f = z3.Function("uf_" + name, *([FP64] * (n + 1)))
        return f(*args)

    def uf(self, name, *args):
        f = z3.Function("uf_" + name, *([R] * (len(args) + 1)))
        return f(*args)

    def fn(self, x):
        kind, fp, w, op, a, b, c, _, val = self.tr.nodes[x]
        p = self.memo[a]
        q = self.memo[b] if op in BINARY else None
        if not self.real:
            if op == F_FABS: return z3.fpAbs(p)
            if op == F_SQRT: return z3.fpSqrt(RNE, p)
            if op == F_FLOOR: return z3.fpRoundToIntegral(z3.RTN(), p)
            if op == F_CEIL: return z3.fpRoundToIntegral(z3.RTP(), p)
            if op == F_TRUNC: return z3.fpRoundToIntegral(z3.RTZ(), p)
            if op == F_RINT: return z3.fpRoundToIntegral(RNE, p)
            if op == F_ROUND: return z3.fpRoundToIntegral(z3.RNA(), p)
            if op == F_FMIN: return z3.fpMin(p, q)
            if op == F_FMAX: return z3.fpMax(p, q)
            if op == F_POW and self.tr.nodes[b][0] == K_CONST and b2d(self.tr.nodes[b][8]) == 2.0:
                return z3.fpMul(RNE, p, p)
            return self.ufp(FN_NAME[op], 2 if q is not None else 1, *([p] if q is None else [p, q]))
        if op == F_FABS: return z3.If(p >= 0, p, -p)
        if op == F_FLOOR: return z3.ToReal(z3.ToInt(p))
        if op == F_CEIL: return -z3.ToReal(z3.ToInt(-p))
        if op == F_TRUNC: return z3.If(p >= 0, z3.ToReal(z3.ToInt(p)), -z3.ToReal(z3.ToInt(-p)))
        if op == F_ROUND: return z3.If(p >= 0, z3.ToReal(z3.ToInt(p + 0.5)), -z3.ToReal(z3.ToInt(-p + 0.5)))
        if op == F_RINT:
            raise ValueError("rint")
        if op == F_FMIN: return z3.If(p <= q, p, q)
        if op == F_FMAX: return z3.If(p >= q, p, q)
        if op == F_FMOD: return self.fmod(p, q)
        if op == F_POW:
            kb = self.tr.nodes[b]
            if kb[0] == K_CONST:
                e = b2d(kb[8])
                if e == 0: return z3.RealVal(1)
                if e == 1: return p
                if e in (2, 3, 4):
                    r = p
                    for _i in range(int(e) - 1):
                        r = r * p
                    return r
        return self.uf(FN_NAME[op], *([p] if q is None else [p, q]))

    def axioms_fp(self, fns):
        """facts about the C library's functions on IEEE doubles: special values, signs, overflow and underflow"""
        ax = []
        nan, inf, fin = z3.fpIsNaN, z3.fpIsInf, lambda v: z3.Not(z3.Or(z3.fpIsNaN(v), z3.fpIsInf(v)))
        K = lambda d: z3.FPVal(d, FP64)
        le, lt, eq = z3.fpLEQ, z3.fpLT, z3.fpEQ
        imp, And, Or, Not = z3.Implies, z3.And, z3.Or, z3.Not
        one, zero, pinf = K(1.0), K(0.0), z3.fpPlusInfinity(FP64)
        for x in fns:
            op = self.tr.nodes[x][3]
            t, e = self.term(self.tr.nodes[x][4]), self.term(x)
            if op == F_EXP:
                ax += [nan(t) == nan(e), Or(nan(e), le(zero, e)), imp(le(t, zero), le(e, one)), imp(le(zero, t), le(one, e)),
                       imp(eq(t, zero), eq(e, one)), imp(le(K(710.0), t), eq(e, pinf)), imp(le(t, K(-746.0)), eq(e, zero)),
                       imp(le(K(-708.0), t), lt(zero, e)), imp(le(t, K(709.0)), lt(e, pinf))]
            elif op == F_COS:
                ax += [nan(e) == Or(nan(t), inf(t)), Or(nan(e), And(le(K(-1.0), e), le(e, one))), imp(eq(t, zero), eq(e, one))]
            elif op == F_POW:
                q = self.term(self.tr.nodes[x][5])
                ok = And(le(zero, t), lt(zero, q), lt(q, pinf))   # base in [0, inf], finite positive exponent
                ax += [imp(And(nan(t), Not(eq(q, zero))), nan(e)), imp(ok, And(Not(nan(e)), le(zero, e))), imp(And(ok, eq(t, zero)), eq(e, zero)),
                       imp(And(ok, eq(t, pinf)), eq(e, pinf)), imp(And(ok, eq(t, one)), eq(e, one)), imp(And(ok, le(t, one)), le(e, one)),
                       imp(And(ok, le(one, t)), le(one, e)), imp(And(fin(t), eq(q, one)), eq(e, t))]
        return ax

    # ---- axioms for the transcendental applications of a slice (sound facts about the real functions)
    def axioms(self, fns):
        if not self.real:
            return self.axioms_fp(fns)
        ax = []
        by = {}
        for x in fns:
            by.setdefault(self.tr.nodes[x][3], []).append(x)
        PI = z3.Q(3141592653589793, 1000000000000000)
        T = self.term
        for op, xs in by.items():
            if op == F_EXP:
                for x in xs:
                    t, e = T(self.tr.nodes[x][4]), T(x)
                    ax += [e > 0, z3.Implies(t <= 0, e <= 1), z3.Implies(t >= 0, e >= 1), e >= 1 + t, z3.Implies(t == 0, e == 1)]
                for i in range(len(xs)):
                    for j in range(i):
                        t1, t2, e1, e2 = T(self.tr.nodes[xs[i]][4]), T(self.tr.nodes[xs[j]][4]), T(xs[i]), T(xs[j])
                        ax += [z3.Implies(t1 < t2, e1 < e2), z3.Implies(t1 > t2, e1 > e2), z3.Implies(t1 + t2 == 0, e1 * e2 == 1)]
            elif op == F_SQRT:
                for x in xs:
                    t, s = T(self.tr.nodes[x][4]), T(x)
                    ax += [z3.Implies(t >= 0, z3.And(s >= 0, s * s == t))]
            elif op == F_LOG:
                for x in xs:
                    t, l = T(self.tr.nodes[x][4]), T(x)
                    ax += [z3.Implies(t > 0, l <= t - 1), z3.Implies(t > 0, z3.And((t > 1) == (l > 0), (t == 1) == (l == 0)))]
                    ex = self.uf("exp", l)
                    ax += [z3.Implies(t > 0, ex == t)]
                    for y in by.get(F_EXP, []):
                        te, e = T(self.tr.nodes[y][4]), T(y)
                        ax += [z3.Implies(t > 0, z3.And((te < l) == (e < t), (te == l) == (e == t)))]
                for i in range(len(xs)):
                    for j in range(i):
                        t1, t2, l1, l2 = T(self.tr.nodes[xs[i]][4]), T(self.tr.nodes[xs[j]][4]), T(xs[i]), T(xs[j])
                        ax += [z3.Implies(z3.And(t1 > 0, t2 > 0, t1 < t2), l1 < l2), z3.Implies(z3.And(t1 > 0, t2 > 0, t1 > t2), l1 > l2),
                               z3.Implies(z3.And(t1 > 0, t2 > 0, t1 * t2 == 1), l1 + l2 == 0)]
            elif op == F_COS:
                for x in xs:
                    t, s = T(self.tr.nodes[x][4]), T(x)
                    ax += [s <= 1, s >= -1, z3.Implies(t == 0, s == 1)]
                ab = lambda t: z3.If(t >= 0, t, -t)
                for i in range(len(xs)):
                    for j in range(i):
                        t1, t2, l1, l2 = T(self.tr.nodes[xs[i]][4]), T(self.tr.nodes[xs[j]][4]), T(xs[i]), T(xs[j])
                        ax += [z3.Implies(ab(t1) == ab(t2), l1 == l2),
                               z3.Implies(z3.And(ab(t1) < ab(t2), ab(t2) <= PI), l1 > l2),
                               z3.Implies(z3.And(ab(t1) > ab(t2), ab(t1) <= PI), l1 < l2)]
            elif op == F_POW:
                app = []
                for x in xs:
                    p, e, v = T(self.tr.nodes[x][4]), T(self.tr.nodes[x][5]), T(x)
                    if self.tr.nodes[self.tr.nodes[x][5]][0] == K_CONST and b2d(self.tr.nodes[self.tr.nodes[x][5]][8]) in (0.0, 1.0, 2.0, 3.0, 4.0):
                        continue
                    app.append((p, e, v))
                    ax += [z3.Implies(p > 0, v > 0), z3.Implies(z3.And(p == 0, e > 0), v == 0), z3.Implies(p == 1, v == 1),
                           z3.Implies(e == 0, v == 1), z3.Implies(e == 1, v == p), z3.Implies(e == 2, v == p * p),
                           z3.Implies(z3.And(p > 0, p < 1, e > 0), v < 1), z3.Implies(z3.And(p > 1, e > 0), v > 1)]
                for i in range(len(app)):
                    for j in range(i):
                        (p1, e1, v1), (p2, e2, v2) = app[i], app[j]
                        ax += [z3.Implies(z3.And(e1 == e2, e1 > 0, p1 >= 0, p2 >= 0), z3.And((p1 < p2) == (v1 < v2), (p1 == p2) == (v1 == v2)))]
            elif op in (F_SIN,):
                for x in xs:
                    s = T(x)
                    ax += [s <= 1, s >= -1]
            elif op == F_TANH:
                for x in xs:
                    s = T(x)
                    ax += [s < 1, s > -1]
        return ax
