// Triangular norms: documented formula, order/identity laws, associativity.
// BOUNDS: degrees a,b,c,d in [0,1] as exact reals (norms selected through the factory, 7 built-in + function norm); fp case: every IEEE double in [0,1] for min/bounded/drastic/nilpotent
// BOUNDS: values inside the library's 1e-6 comparison tolerance of a discontinuity (a+b=1, max=1, a+b=0) but not on it are outside the claim
#include "common.h"
using namespace fl;
static const char* names[] = {"Minimum", "AlgebraicProduct", "BoundedDifference", "DrasticProduct", "EinsteinProduct", "HamacherProduct", "NilpotentMinimum"};
static scalar ref(int k, scalar a, scalar b) {
    scalar lo = a < b ? a : b, hi = a < b ? b : a;
    switch (k) {
        case 0: return lo;
        case 1: return a * b;
        case 2: return a + b - 1.0 > 0.0 ? a + b - 1.0 : 0.0;
        case 3: return hi == 1.0 ? lo : 0.0;
        case 4: return a * b / (2.0 - (a + b - a * b));
        case 5: return hi == 0.0 ? 0.0 : a * b / (a + b - a * b);
        default: return a + b > 1.0 ? lo : 0.0;
    }
}
static scalar deg(const char* n) { return sx_real(n, 0.0, 1.0); }
static void fence(int k, scalar a, scalar b) {
    if (k == 3) crisp(a, 1.0), crisp(b, 1.0);
    if (k == 5) crisp(a + b, 0.0);
    if (k == 6) crisp(a + b, 1.0);
}
static std::unique_ptr<TNorm> make() {
    TNorm* t = FactoryManager::instance()->tnorm()->constructObject(names[SUB]);
    sx_check(t->className() == names[SUB], "factory gives the named norm");
    return std::unique_ptr<TNorm>(t);
}
CASE(formula, "real", 7, 7, "") {
    std::unique_ptr<TNorm> t = make();
    scalar a = deg("a"), b = deg("b");
    fence(SUB, a, b);
    scalar v = t->compute(a, b);
    sx_check(near(v, ref(SUB, a, b), 1e-9), "documented formula");
    sx_check(between(v, -1e-9, mn(a, b) + 1e-9), "0 <= T(a,b) <= min(a,b)");
    std::unique_ptr<TNorm> c(t->clone());
    sx_check(near(c->compute(a, b), v, 1e-12), "clone computes the same");
}
CASE(laws, "real", 7, 7, "") {
    std::unique_ptr<TNorm> t = make();
    scalar a = deg("a"), b = deg("b"), d = deg("d");
    fence(SUB, a, b); fence(SUB, d, b);
    scalar v = t->compute(a, b);
    sx_check(near(v, t->compute(b, a), 1e-9), "commutative");
    sx_check(near(t->compute(a, 1.0), a, 2e-6) & near(t->compute(1.0, a), a, 2e-6), "1 is neutral");
    sx_check(near(t->compute(a, 0.0), 0.0, 2e-6) & near(t->compute(0.0, a), 0.0, 2e-6), "0 is absorbing");
    sx_check((a > d) | (v <= t->compute(d, b) + 1e-9), "monotone in the first argument");
    sx_check((a > d) | (t->compute(b, a) <= t->compute(b, d) + 1e-9), "monotone in the second argument");
}
CASE(associative, "real", 7, 7, "time=100") {
    std::unique_ptr<TNorm> t = make();
    scalar a = deg("a"), b = deg("b"), c = deg("c");
    fence(SUB, a, b); fence(SUB, b, c);
    scalar l = t->compute(a, b), r = t->compute(b, c);
    fence(SUB, l, c); fence(SUB, a, r);
    sx_check(near(t->compute(l, c), t->compute(a, r), SUB == 4 || SUB == 5 ? 1e-3 : 1e-9), "associative");
}
CASE(doubles, "fp", 4, 4, "qtime_check=60000") {
    static const int which[] = {0, 2, 3, 6};
    SUB = which[SUB];
    std::unique_ptr<TNorm> t = make();
    scalar a = deg("a"), b = deg("b");
    scalar v = t->compute(a, b);
    sx_check(between(v, 0.0, 1.0) & (v <= mn(a, b) + (SUB == 2 ? 1e-12 : 0.0)), "0 <= T(a,b) <= min(a,b) for every double");
    sx_check(v == t->compute(b, a), "commutative for every double");
    if (SUB == 0) sx_check(v == ref(0, a, b), "exact minimum for every double");
}
CASE(function_norm, "real", 3, 3, "") {
    static const char* f[] = {"a*b", "min(a,b)/2 + max(a,b)*0", "(a*b)/(2-(a+b-a*b))"};
    TNormFunction t(f[SUB]);
    sx_check(t.function().getFormula() == f[SUB], "formula kept");
    scalar a = deg("a"), b = deg("b"), c = deg("c"), d = deg("d");
    t.compute(c, d);
    scalar v = t.compute(a, b);
    scalar e = SUB == 0 ? a * b : SUB == 1 ? mn(a, b) / 2 : a * b / (2 - (a + b - a * b));
    sx_check(near(v, e, 1e-9), "function norm evaluates its formula at (a,b)");
    std::unique_ptr<TNormFunction> k(t.clone());
    sx_check(near(k->compute(b, a), e, 1e-9), "clone of function norm");
}
