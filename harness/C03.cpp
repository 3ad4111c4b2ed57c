// Hedges: documented transformation, range, direction, and duality.
// BOUNDS: membership degrees in [0,1] as exact reals (sqrt by its defining equation), 6 built-in hedges of the factory plus function hedges; fp case: every IEEE double in [0,1] for the arithmetic hedges
#include "common.h"
using namespace fl;
static const char* names[] = {"not", "any", "very", "somewhat", "extremely", "seldom"};
static std::unique_ptr<Hedge> make(int k) {
    Hedge* t = FactoryManager::instance()->hedge()->constructObject(names[k]);
    sx_check(t->name() == names[k], "factory gives the named hedge");
    return std::unique_ptr<Hedge>(t);
}
static scalar deg(const char* n) { return sx_real(n, 0.0, 1.0); }
// s = sqrt(t) decided by its defining equation
static bool isSqrt(scalar s, scalar t, scalar tol) { return (s >= -tol) & near(s * s, t, tol); }
CASE(formula, "real", 6, 6, "") {
    std::unique_ptr<Hedge> h = make(SUB);
    scalar x = deg("x");
    if (SUB >= 4) crisp(x, 0.5);
    scalar v = h->hedge(x);
    bool ok = false;
    switch (SUB) {
        case 0: ok = near(v, 1.0 - x, 1e-9); break;
        case 1: ok = v == 1.0; break;
        case 2: ok = near(v, x * x, 1e-9); break;
        case 3: ok = isSqrt(v, x, 1e-9); break;
        case 4: ok = near(v, x <= 0.5 ? 2.0 * x * x : 1.0 - 2.0 * (1.0 - x) * (1.0 - x), 1e-9); break;
        case 5: ok = x <= 0.5 ? isSqrt(v, 0.5 * x, 1e-9) : isSqrt(1.0 - v, 0.5 * (1.0 - x), 1e-9); break;
    }
    sx_check(ok, "documented transformation");
    std::unique_ptr<Hedge> c(h->clone());
    sx_check(near(c->hedge(x), v, 1e-12), "clone transforms the same");
}
CASE(laws, "real", 6, 6, "") {
    std::unique_ptr<Hedge> h = make(SUB);
    scalar x = deg("x"), y = deg("y");
    if (SUB >= 4) crisp(x, 0.5), crisp(y, 0.5);
    scalar v = h->hedge(x), w = h->hedge(y);
    sx_check(between(v, -1e-9, 1.0 + 1e-9), "hedged degree stays in [0,1]");
    if (SUB == 0) sx_check((x > y) | (v >= w - 1e-9), "not reverses the order");
    else sx_check((x > y) | (v <= w + 1e-9), "the hedge preserves the order");
    if (SUB == 2) sx_check(v <= x + 1e-9, "very concentrates");
    if (SUB == 3) sx_check(v >= x - 1e-9, "somewhat dilates");
    if (SUB == 4) sx_check(x <= 0.5 ? v <= x + 1e-9 : v >= x - 1e-9, "extremely sharpens around 0.5");
    if (SUB == 5) sx_check(x <= 0.5 ? v >= x - 1e-9 : v <= x + 1e-9, "seldom blurs around 0.5");
    scalar e0 = h->hedge(0.0), e1 = h->hedge(1.0);
    sx_check((e0 == (SUB <= 1 ? 1.0 : 0.0)) & (e1 == (SUB == 0 ? 0.0 : 1.0)), "crisp truth values are mapped to crisp truth values");
}
CASE(inverse, "real", 3, 3, "") {
    scalar x = deg("x");
    if (SUB == 0) { std::unique_ptr<Hedge> n = make(0); sx_check(near(n->hedge(n->hedge(x)), x, 1e-9), "not is an involution"); }
    if (SUB == 1) { std::unique_ptr<Hedge> v = make(2), s = make(3); sx_check(near(s->hedge(v->hedge(x)), x, 1e-6) & near(v->hedge(s->hedge(x)), x, 1e-6), "somewhat inverts very"); }
    if (SUB == 2) {
        std::unique_ptr<Hedge> e = make(4), s = make(5);
        crisp(x, 0.5); scalar a = s->hedge(x); crisp(a, 0.5);
        sx_assume((x < 0.5 - 1e-3) | (x > 0.5 + 1e-3));
        sx_check(near(e->hedge(a), x, 1e-5), "extremely inverts seldom");
    }
}
CASE(doubles, "fp", 4, 4, "qtime_check=60000") {
    static const int which[] = {0, 1, 2, 4};
    int k = which[SUB];
    std::unique_ptr<Hedge> h = make(k);
    scalar x = deg("x");
    scalar v = h->hedge(x);
    sx_check(between(v, 0.0, 1.0), "hedged degree stays in [0,1] for every double");
}
CASE(function_hedge, "real", 8, 8, "") {
    static const char* f[] = {"x*x*x", "1-(1-x)^2", "1-x", "0.25+x/2"};
    // given to the constructor, or set later in place of another
    HedgeFunction h(SUB < 4 ? f[SUB] : SUB % 2 ? "" : "x/3", "hf");
    if (SUB >= 4) h.setFormula(f[SUB % 4]);
    sx_check(h.name() == "hf" && h.getFormula() == f[SUB % 4], "name and formula");
    scalar x = deg("x"), y = deg("y");
    h.hedge(y);
    scalar v = h.hedge(x);
    scalar e = SUB % 4 == 0 ? x * x * x : SUB % 4 == 1 ? 1 - (1 - x) * (1 - x) : SUB % 4 == 2 ? 1 - x : 0.25 + 0.5 * x;
    sx_check(near(v, e, 1e-9), "function hedge evaluates its formula at x");
    std::unique_ptr<HedgeFunction> k(h.clone());
    sx_check(near(k->hedge(x), v, 1e-9), "clone of function hedge");
}
