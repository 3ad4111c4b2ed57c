// Triangular conorms: documented formula, order/identity laws, associativity, duality with the t-norms.
// BOUNDS: degrees a,b,c,d in [0,1] as exact reals (8 built-in conorms of the factory + unbounded sum up to 4 + function norm); fp case: every IEEE double in [0,1] for max/bounded/drastic/nilpotent
// BOUNDS: values inside the library's 1e-6 comparison tolerance of a discontinuity (a+b=1, min=0, a*b=1) but not on it are outside the claim
#include "common.h"
using namespace fl;
static const char* names[] = {"Maximum", "AlgebraicSum", "BoundedSum", "DrasticSum", "EinsteinSum", "HamacherSum", "NilpotentMaximum", "NormalizedSum", "UnboundedSum"};
static const char* duals[] = {"Minimum", "AlgebraicProduct", "BoundedDifference", "DrasticProduct", "EinsteinProduct", "HamacherProduct", "NilpotentMinimum"};
static scalar ref(int k, scalar a, scalar b) {
    scalar lo = a < b ? a : b, hi = a < b ? b : a;
    switch (k) {
        case 0: return hi;
        case 1: return a + b - a * b;
        case 2: return a + b < 1.0 ? a + b : 1.0;
        case 3: return lo == 0.0 ? hi : 1.0;
        case 4: return (a + b) / (1.0 + a * b);
        case 5: return lo == 1.0 ? 1.0 : (a + b - 2.0 * a * b) / (1.0 - a * b);
        case 6: return a + b < 1.0 ? hi : 1.0;
        case 7: return a + b > 1.0 ? 1.0 : a + b;
        default: return a + b;
    }
}
static scalar deg(const char* n) { return sx_real(n, 0.0, 1.0); }
static void fence(int k, scalar a, scalar b) {
    if (k == 3) crisp(a, 0.0), crisp(b, 0.0);
    if (k == 5) crisp(a, 1.0), crisp(b, 1.0), sx_assume(((a == 1.0) & (b == 1.0)) | (a * b < 1.0 - 4e-6));
    if (k == 6) crisp(a + b, 1.0);
}
static std::unique_ptr<SNorm> make() {
    SNorm* t = FactoryManager::instance()->snorm()->constructObject(names[SUB]);
    sx_check(t->className() == names[SUB], "factory gives the named norm");
    return std::unique_ptr<SNorm>(t);
}
CASE(formula, "real", 9, 9, "") {
    std::unique_ptr<SNorm> t = make();
    scalar a = deg("a"), b = deg("b");
    fence(SUB, a, b);
    scalar v = t->compute(a, b);
    sx_check(near(v, ref(SUB, a, b), 1e-9), "documented formula");
    sx_check((v >= mx(a, b) - 1e-9) & ((SUB == 8) | (v <= 1.0 + 1e-9)), "max(a,b) <= S(a,b) <= 1");
    std::unique_ptr<SNorm> c(t->clone());
    sx_check(near(c->compute(a, b), v, 1e-12), "clone computes the same");
}
CASE(laws, "real", 9, 9, "") {
    std::unique_ptr<SNorm> t = make();
    scalar a = deg("a"), b = deg("b"), d = deg("d");
    fence(SUB, a, b); fence(SUB, d, b);
    scalar v = t->compute(a, b);
    sx_check(near(v, t->compute(b, a), 1e-9), "commutative");
    sx_check(near(t->compute(a, 0.0), a, 2e-6) & near(t->compute(0.0, a), a, 2e-6), "0 is neutral");
    if (SUB != 8) sx_check(near(t->compute(a, 1.0), 1.0, 2e-6) & near(t->compute(1.0, a), 1.0, 2e-6), "1 is absorbing");
    sx_check((a > d) | (v <= t->compute(d, b) + 1e-9), "monotone in the first argument");
    sx_check((a > d) | (t->compute(b, a) <= t->compute(b, d) + 1e-9), "monotone in the second argument");
}
CASE(associative, "real", 9, 9, "time=100") {
    std::unique_ptr<SNorm> t = make();
    scalar a = deg("a"), b = deg("b"), c = deg("c");
    fence(SUB, a, b); fence(SUB, b, c);
    scalar l = t->compute(a, b), r = t->compute(b, c);
    fence(SUB, l, c); fence(SUB, a, r);
    sx_check(near(t->compute(l, c), t->compute(a, r), SUB == 4 || SUB == 5 ? 1e-3 : 1e-9), "associative");
}
CASE(dual, "real", 7, 7, "") {
    std::unique_ptr<SNorm> t = make();
    std::unique_ptr<TNorm> n(FactoryManager::instance()->tnorm()->constructObject(duals[SUB]));
    scalar a = deg("a"), b = deg("b");
    fence(SUB, a, b);
    if (SUB == 5) { crisp(a + b, 2.0); sx_assume((a == 1.0) | (b == 1.0) | ((a < 1.0 - 1e-3) & (b < 1.0 - 1e-3))); }
    sx_check(near(t->compute(a, b), 1.0 - n->compute(1.0 - a, 1.0 - b), 1e-6), "S(a,b) = 1 - T(1-a,1-b)");
}
CASE(doubles, "fp", 4, 4, "qtime_check=60000") {
    static const int which[] = {0, 2, 3, 6};
    SUB = which[SUB];
    std::unique_ptr<SNorm> t = make();
    scalar a = deg("a"), b = deg("b");
    scalar v = t->compute(a, b);
    sx_check(between(v, 0.0, 1.0) & (v >= mx(a, b)), "max(a,b) <= S(a,b) <= 1 for every double");
    sx_check(v == t->compute(b, a), "commutative for every double");
    if (SUB == 0) sx_check(v == ref(0, a, b), "exact maximum for every double");
}
CASE(function_norm, "real", 3, 3, "") {
    static const char* f[] = {"a+b-a*b", "max(a,b)/2 + min(a,b)*0", "(a+b)/(1+a*b)"};
    SNormFunction t(f[SUB]);
    sx_check(t.function().getFormula() == f[SUB], "formula kept");
    scalar a = deg("a"), b = deg("b"), c = deg("c"), d = deg("d");
    t.compute(c, d);
    scalar v = t.compute(a, b);
    scalar e = SUB == 0 ? a + b - a * b : SUB == 1 ? mx(a, b) / 2 : (a + b) / (1 + a * b);
    sx_check(near(v, e, 1e-9), "function norm evaluates its formula at (a,b)");
    std::unique_ptr<SNormFunction> k(t.clone());
    sx_check(near(k->compute(b, a), e, 1e-9), "clone of function norm");
}
