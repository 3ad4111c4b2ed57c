// Whole inference: the outputs of a run equal an independent evaluation of rules, operators and defuzzification.
// BOUNDS: engines with 2 inputs (ramp and triangle terms, hedge not/very), 1-2 outputs, 3-4 rules with symbolic weight of the first; any first input in [-2,2], any second one (in the quick tier one of four values for most operator sets); operator sets listed in the harness; centroid and maxima at resolution 3 (thorough 5), weighted average and sum with constants, linear and ramp consequents; exact reals, degrees 0 or above the comparison tolerance, membership sums of at least 1/100
#include "engines.h"
using namespace sx;
static scalar in(const char* n) { scalar v = sx_real(n, -2, 2); crisp(v, -0.5); crisp(v, 0); crisp(v, 0.25); crisp(v, 0.5); crisp(v, 1); return v; }
// the reference forks on its cases (the engine has forked on the same conditions), so every formula is a plain polynomial
static bool fork(bool c) { if (c) { __asm__ volatile(""); return true; } return false; }
static scalar lo2(scalar a, scalar b) { if (fork(b < a)) return b; return a; }
static scalar hi2(scalar a, scalar b) { if (fork(a < b)) return b; return a; }
static scalar low(scalar x) { if (fork(x >= 0.5)) return 0; if (fork(x <= -0.5)) return 1; return 0.5 - x; }
static scalar high(scalar x) { if (fork(x <= -0.5)) return 0; if (fork(x >= 0.5)) return 1; return x + 0.5; }
static scalar tri(scalar x, scalar a, scalar b, scalar c) { if (fork(x < a)) return 0; if (fork(x > c)) return 0; if (fork(x < b)) return (x - a) / (b - a); return (c - x) / (c - b); }
static scalar T(int k, scalar a, scalar b) { switch (k) { case 0: return lo2(a, b); case 1: return a * b; default: return hi2(0, a + b - 1); } }
static scalar U(int k, scalar a, scalar b) { switch (k) { case 0: return hi2(a, b); case 1: return a + b - a * b; default: return lo2(1, a + b); } }
static TNorm* tn(int k) { switch (k) { case 0: return new Minimum; case 1: return new AlgebraicProduct; default: return new BoundedDifference; } }
static SNorm* sn(int k) { switch (k) { case 0: return new Maximum; case 1: return new AlgebraicSum; default: return new BoundedSum; } }
struct Cfg { int conj, disj, impl, agg, def; };
// rules of every engine below: degrees by hand
static const char* const text[] = {"if a is low and b is high then o is s", "if a is mid or b is not low then o is l with 0.5", "if a is high and (b is low or b is mid) then o is l and p is s", "if b is very high then p is l", 0};
static void degrees(const Cfg& c, scalar a, scalar b, scalar w, scalar* d) {
    scalar ma = tri(a, -0.5, 0.25, 1), mb = tri(b, -0.5, 0.25, 1);
    d[0] = w * T(c.conj, low(a), high(b)); d[1] = 0.5 * U(c.disj, ma, 1 - low(b)); d[2] = T(c.conj, high(a), U(c.disj, low(b), mb)); d[3] = high(b) * high(b);
    for (int i = 0; i < 4; ++i) crisp(d[i], 0); // rules fire above the comparison tolerance
}
// the second input: any value (thorough, and where cheap) or one of four
static scalar second(bool any) { static const scalar v[] = {-0.375, 0.125, 0.4, 0.875}; return THOROUGH || any ? in("b") : v[sx_choice("b4", 4)]; }
CASE(mamdani, "real", 4, 12, "cost=9 time=250 qtime_check=60000 max_paths=6000") {
    static const Cfg cf[] = {{0, 0, 0, 0, 0}, {1, 1, 1, 0, 0}, {0, 1, 0, 0, 1}, {1, 0, 1, 2, 0}, {2, 0, 0, 0, 0}, {1, 1, 1, 1, 0}, {0, 2, 1, 0, 2}, {2, 2, 2, 0, 0}, {0, 0, 1, 2, 0}, {1, 0, 0, 1, 0}, {0, 0, 2, 0, 2}, {1, 2, 0, 2, 1}};
    const Cfg& c = cf[SUB]; int R = 3;
    Engine e("e"); e.addInputVariable(input("a")); e.addInputVariable(input("b"));
    Defuzzifier* d = c.def == 0 ? (Defuzzifier*)new Centroid(R) : c.def == 1 ? (Defuzzifier*)new SmallestOfMaximum(R) : new LargestOfMaximum(R);
    OutputVariable *o = out("o", d, sn(c.agg)), *p = out("p", d->clone(), sn(c.agg));
    o->addTerm(new Triangle("s", 0, 0.75, 3)); o->addTerm(new Ramp("l", 0, 4)); e.addOutputVariable(o);
    p->addTerm(new Triangle("s", 0, 0.75, 3)); p->addTerm(new Ramp("l", 0, 4)); e.addOutputVariable(p); p->setDefaultValue(-7);
    rules(&e, "r", tn(c.conj), sn(c.disj), tn(c.impl), new General, text);
    scalar a = in("a"), b = second(false), w = SUB % 2 ? 0.75 : 1.0, g[4]; e.getRuleBlock(0)->getRule(0)->setWeight(w);
    set(&e, a, b); e.process();
    degrees(c, a, b, w, g);
    for (int i = 0; i < 4; ++i) sx_check(near(e.getRuleBlock(0)->getRule(i)->getActivationDegree(), g[i], 1e-9), "degree of every rule");
    for (int k = 0; k < 2; ++k) {
        scalar num = 0, den = 0, y[5], x[5], top = -1;
        for (int j = 0; j < R; ++j) {
            x[j] = (j + 0.5) * 3 / R; scalar s = tri(x[j], 0, 0.75, 3), l = x[j] / 4;
            // a rule that is not satisfied does not contribute
            y[j] = k == 0 ? U(c.agg, U(c.agg, T(c.impl, s, g[0]), T(c.impl, l, g[1])), T(c.impl, l, g[2])) : U(c.agg, T(c.impl, s, g[2]), T(c.impl, l, g[3]));
            num += x[j] * y[j]; den += y[j]; top = mx(top, y[j]);
        }
        scalar v = (k ? p : o)->getValue();
        if (c.def == 0) { sx_assume((den >= 0.01) | (den == 0)); sx_check(((den == 0) & (k == 1 ? v == -7 : v != v)) | near(v * den, num, 1e-6), "centroid of the aggregated output, or the default value"); }
        else { bool hit = false; for (int j = 0; j < R; ++j) hit = hit | ((v == x[j]) & (y[j] >= top - 1e-6)); sx_check(hit | ((den == 0) & (k == 1 ? v == -7 : v != v)), "maximum of the aggregated output, or the default value"); }
    }
}
CASE(weighted, "real", 6, 12, "cost=9 time=250 qtime_check=60000 max_paths=6000") {
    static const Cfg cf[] = {{0, 0, 0, 0, 0}, {1, 1, 0, 0, 0}, {1, 0, 0, 0, 1}, {1, 1, 0, 0, 2}, {0, 0, 0, 0, 3}, {1, 0, 0, 2, 0}, {0, 1, 0, 0, 1}, {0, 1, 0, 0, 2}, {2, 0, 0, 0, 0}, {0, 2, 0, 1, 1}, {1, 1, 0, 0, 3}, {1, 2, 0, 2, 3}};
    const Cfg& c = cf[SUB]; bool sum = c.def & 1, tsu = c.def & 2;
    Engine e("e"); e.addInputVariable(input("a")); e.addInputVariable(input("b"));
    SNorm* s0 = SUB % 3 == 2 ? fl::null : sn(c.agg); bool plain = !s0;
    OutputVariable *o = out("o", sum ? (Defuzzifier*)new WeightedSum : new WeightedAverage, s0), *p = out("p", sum ? (Defuzzifier*)new WeightedSum : new WeightedAverage, s0 ? s0->clone() : fl::null);
    e.addOutputVariable(o); e.addOutputVariable(p); p->setDefaultValue(-7);
    std::vector<scalar> co; co.push_back(1); co.push_back(-2); co.push_back(0.5);
    for (int k = 0; k < 2; ++k) { OutputVariable* q = k ? p : o; if (tsu) { q->addTerm(new Ramp("s", 0, 4)); q->addTerm(new Ramp("l", 3, -1)); } else { q->addTerm(new Constant("s", -2)); q->addTerm(new Linear("l", co, &e)); } }
    rules(&e, "r", tn(c.conj), sn(c.disj), fl::null, new General, text);
    scalar a = in("a"), b = second(SUB == 2 || SUB == 4), w = 1, g[4]; if (SUB == 1 || SUB >= 6) { w = sx_real("w", 0, 1); e.getRuleBlock(0)->getRule(0)->setWeight(w); }
    set(&e, a, b); e.process();
    degrees(c, a, b, w, g);
    for (int k = 0; k < 2; ++k) {
        scalar ws = k ? g[2] : g[0], wl = k ? g[3] : (plain ? g[1] + g[2] : U(c.agg, g[1], g[2]));
        scalar zs = tsu ? 4 * ws : -2, zl = tsu ? 3 - 4 * wl : a - 2 * b + 0.5, v = (k ? p : o)->getValue(), num = ws * zs + wl * zl, den = ws + wl;
        bool fired = k ? (g[2] > 0) | (g[3] > 0) : (g[0] > 0) | (g[1] > 0) | (g[2] > 0);
        sx_assume((den >= 0.01) | (den == 0));
        sx_check(((!fired) & (k == 1 ? v == -7 : v != v)) | (sum ? near(v, num, 1e-6) : near(v * den, num, 1e-6)), "weighted combination of the rules' conclusions, or the default value");
    }
}
// rule blocks run in order with operators and activation methods of their own; a disabled block does nothing; later blocks see the activations of earlier ones
CASE(blocks, "real", 4, 8, "cost=6 time=200 max_paths=6000") {
    Engine e("e"); e.addInputVariable(input("a")); e.addInputVariable(input("b"));
    OutputVariable *p = out("p", new WeightedSum, SUB % 2 ? new AlgebraicSum : fl::null), *o = out("o", new WeightedAverage, new Maximum);
    p->addTerm(new Constant("s", 1)); p->addTerm(new Constant("l", 2)); o->addTerm(new Constant("s", -1)); o->addTerm(new Constant("l", 1)); e.addOutputVariable(p); e.addOutputVariable(o);
    static const char* const t[] = {"if a is low or b is high then p is s", "if a is high and b is high then p is s", "if b is low then p is l", 0};
    static const char* const u[] = {"if p is s and b is high then o is l", "if p is l or b is low then o is s", 0};
    static const Cfg cf[][2] = {{{0, 0, 0, 0, 0}, {1, 1, 1, 0, 0}}, {{1, 1, 1, 0, 0}, {0, 0, 0, 0, 0}}, {{2, 1, 0, 0, 0}, {1, 2, 2, 0, 0}}, {{0, 2, 2, 0, 0}, {2, 0, 1, 0, 0}}};
    const Cfg *c = cf[SUB % 4]; bool swap = SUB >= 4;
    bool on1 = sx_choice("on1", 2), on2 = sx_choice("on2", 2);
    for (int k = 0; k < 2; ++k) { bool first = (k == 0) != swap; const Cfg& q = c[first ? 0 : 1]; rules(&e, first ? "r" : "q", tn(q.conj), sn(q.disj), tn(q.impl), new General, first ? t : u); e.getRuleBlock(k)->setEnabled(first ? on1 : on2); }
    scalar a = in("a"), b = in("b"), g[5]; set(&e, a, b); e.process();
    g[0] = U(c[0].disj, low(a), high(b)); g[1] = T(c[0].conj, high(a), high(b)); g[2] = low(b);
    for (int i = 0; i < 3; ++i) { crisp(g[i], 0); if (!on1) g[i] = 0; }
    bool seen = on1 && !swap; scalar ps = seen ? (SUB % 2 ? g[0] + g[1] - g[0] * g[1] : g[0] + g[1]) : 0, pl = seen ? g[2] : 0;
    g[3] = T(c[1].conj, ps, high(b)); g[4] = U(c[1].disj, pl, low(b)); for (int i = 3; i < 5; ++i) { crisp(g[i], 0); if (!on2) g[i] = 0; }
    const char* const nm[] = {"s", "s", "l", "l", "s"}; const Aggregated* f[2] = {p->fuzzyOutput(), o->fuzzyOutput()}; size_t n[2] = {0, 0}; bool ok = true, impl = true;
    for (int i = 0; i < 5; ++i) { int k = i < 3 ? 0 : 1; if (!fork(g[i] > 0)) continue; if (n[k] >= f[k]->numberOfTerms()) { ok = false; continue; }
        const Activated& y = f[k]->getTerm(n[k]++); ok = ok & near(y.getDegree(), g[i], 1e-9) & (y.getTerm()->getName() == nm[i]); impl = impl & (y.getImplication() == e.getRuleBlock(k == 0 ? "r" : "q")->getImplication()); }
    sx_check(ok & (n[0] == f[0]->numberOfTerms()) & (n[1] == f[1]->numberOfTerms()), "each enabled block adds its conclusions, with its own operators, in order"); sx_check(impl, "conclusions carry the implication of their block");
    sx_check(e.getRuleBlock(0)->isEnabled() == (swap ? on2 : on1), "processing keeps blocks enabled or disabled");
}
