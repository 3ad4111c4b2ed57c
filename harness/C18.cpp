// Weighted defuzzifiers: (average) sum of degree times value over the activated terms, with type inference.
// BOUNDS: up to 4 activations over up to 3 distinct terms (degrees in [0,1], constants in [-100,100], linear terms over one input), exact reals; aggregation none, Maximum, AlgebraicSum, BoundedSum; monotonic terms ramp, s-shape, z-shape, concave, sigmoid
// BOUNDS: total weight at least 1/1000 for the weighted average of several terms
#include "terms.h"
using namespace fl;
static SNorm* agg(int k) { switch (k) { case 0: return fl::null; case 1: return new Maximum; case 2: return new AlgebraicSum; default: return new BoundedSum; } }
static scalar join(int k, scalar a, scalar b) { switch (k) { case 0: return a + b; case 1: return mx(a, b); case 2: return a + b - a * b; default: return mn(1, a + b); } }
static WeightedDefuzzifier* make(bool avg, const char* type) {
    WeightedDefuzzifier* d = dynamic_cast<WeightedDefuzzifier*>(FactoryManager::instance()->defuzzifier()->constructObject(avg ? "WeightedAverage" : "WeightedSum"));
    sx_check(d && d->getType() == WeightedDefuzzifier::Automatic, "defuzzifiers start with the automatic type");
    d->setType(S(type));
    return d;
}
static void judge(bool avg, const char* type, const Aggregated& out, int n, const scalar* w, const scalar* z) {
    std::unique_ptr<WeightedDefuzzifier> d(make(avg, type));
    scalar num = 0, den = 0;
    for (int i = 0; i < n; ++i) { num += w[i] * z[i]; den += w[i]; }
    scalar v = d->defuzzify(&out, -1, 1);
    if (!avg) { sx_check(near(v, num, 1e-6), "weighted sum"); }
    else if (n == 1) { if (w[0] > 0) sx_check(near(v, z[0], 1e-6), "weighted average of one term is its value"); else sx_check(v != v, "weighted average without weight is NaN"); }
    else { sx_assume((den >= 1e-3) | (den == 0)); if (den > 0) sx_check(near(v * den, num, 1e-6), "weighted average"); else sx_check(v != v, "weighted average without weight is NaN"); }
    std::unique_ptr<Defuzzifier> c(d->clone());
    sx_check(same(c->defuzzify(&out, 5, 7), v), "a clone gives the same value and the range does not matter");
}
// distinct constants, each activated once or several times, under every aggregation operator
CASE(constants, "real", 16, 24, "cost=4 time=90") {
    static const char* const ty[] = {"Automatic", "TakagiSugeno"};
    bool avg = SUB & 1; int op = SUB / 2 % 4, shape = SUB / 8; // shapes: which term each activation uses
    static const int shp[][5] = {{0, 1, -1}, {0, 1, 0, -1}, {0, 1, 2, 0, -1}};
    Engine e; Constant* k[3]; char nm[8]; scalar z[3], w[3] = {0, 0, 0}; bool seen[3] = {false, false, false}; int cnt = 0;
    for (int i = 0; i < 3; ++i) { std::snprintf(nm, sizeof nm, "z%d", i); z[i] = sx_real(nm, -100, 100); k[i] = new Constant(S("t") + char('0' + i), z[i]); }
    Aggregated out("o", -1, 1, agg(op));
    for (int j = 0; shp[shape][j] >= 0; ++j) {
        int t = shp[shape][j]; std::snprintf(nm, sizeof nm, "d%d", j); scalar d = sx_real(nm, 0, 1);
        out.addTerm(k[t], d, fl::null);
        w[t] = seen[t] ? join(op, w[t], d) : d; if (!seen[t]) ++cnt; seen[t] = true;
    }
    judge(avg, ty[sx_choice("ty", 2)], out, cnt, w, z);
    for (int i = 0; i < 3; ++i) delete k[i];
}
// linear and constant terms together; function terms see the activation degree as x
CASE(linear, "real", 4, 4, "cost=4 time=60") {
    bool avg = SUB & 1; Engine e; InputVariable* a = new InputVariable("a", -10, 10); e.addInputVariable(a); a->setValue(sx_real("a", -10, 10));
    std::vector<scalar> c(2); c[0] = sx_real("c0", -5, 5); c[1] = sx_real("c1", -5, 5);
    scalar w[3], z[3]; w[0] = sx_real("w0", 0, 1); w[1] = sx_real("w1", 0, 1); w[2] = 0;
    Linear l("l", c, &e); z[0] = c[0] * a->getValue() + c[1]; int n = 2;
    Constant k("k", sx_real("k", -10, 10)); z[1] = k.getValue();
    std::unique_ptr<Function> f(Function::create("f", "2 * x + a", &e)); z[2] = 0;
    Aggregated out("o", -1, 1, fl::null); out.addTerm(&l, w[0], fl::null); out.addTerm(&k, w[1], fl::null);
    if (SUB >= 2) { w[2] = sx_real("w2", 0, 1); out.addTerm(f.get(), w[2], fl::null); z[2] = 2 * w[2] + a->getValue(); n = 3; }
    judge(avg, "Automatic", out, n, w, z);
}
// Tsukamoto: the value of a monotonic term is the inverse of its membership
CASE(tsukamoto, "real", 10, 10, "cost=4 time=90") {
    bool avg = SUB & 1; int kind = SUB / 2;
    scalar w[2] = {sx_real("w0", 0.001, 1), sx_real("w1", 0.001, 1)}, z[2];
    std::unique_ptr<Term> t;
    if (kind == 0) t.reset(new Ramp("t0", 0, 4)); else if (kind == 1) t.reset(new SShape("t0", 0, 4)); else if (kind == 2) t.reset(new ZShape("t0", 0, 4)); else if (kind == 3) t.reset(new Concave("t0", 2, 4)); else t.reset(new Sigmoid("t0", 1, 2));
    if (kind == 4) sx_assume(w[0] < 1);
    Ramp r("t1", 3, -1);
    z[0] = t->tsukamoto(w[0]); z[1] = 3 - 4 * w[1];
    Aggregated out("o", 0, 4, fl::null); out.addTerm(t.get(), w[0], fl::null); out.addTerm(&r, w[1], fl::null);
    judge(avg, sx_choice("ty", 2) ? "Tsukamoto" : "Automatic", out, 2, w, z);
}
// Takagi-Sugeno with a shape term evaluates its membership at the degree; explicit types override the inference
CASE(forced, "real", 2, 2, "cost=4 time=60") {
    bool avg = SUB & 1; scalar w[2] = {sx_real("w0", 0, 1), 0}, z[2]; 
    Ramp r("r", -1, 2); z[0] = (w[0] + 1) / 3; int n = 1;
    Aggregated out("o", 0, 1, fl::null); out.addTerm(&r, w[0], fl::null);
    judge(avg, "TakagiSugeno", out, n, w, z);
}
// undefined and infinite values: as in arithmetic
CASE(undefined, "real", 2, 2, "cost=2 time=40") {
    bool avg = SUB & 1; scalar w[2] = {sx_real("w0", 0.01, 1), sx_real("w1", 0.01, 1)}, x = sx_real("x", -100, 100); int k = sx_choice("k", 5), at = sx_choice("at", 2); scalar odd = k == 0 ? fl::nan : k == 1 ? fl::inf : -fl::inf; Constant a("a", at ? x : odd), b("b", at ? odd : x), c("c", -odd);
    std::unique_ptr<WeightedDefuzzifier> d(make(avg, "Automatic")); Aggregated out("o", 0, 1, fl::null); out.addTerm(&a, w[0], fl::null); out.addTerm(&b, k == 3 && at ? 0.0 : w[1], fl::null); if (k == 4) out.addTerm(&c, 1, fl::null);
    scalar v = d->defuzzify(&out, 0, 1); if (k == 0 || k == 4 || (k == 3 && at)) sx_check(v != v, "undefined values and infinity times zero make the result undefined"); else sx_check(v == odd, "infinite values make it infinite");
    Linear l("l", std::vector<scalar>(1, 1.0)); Aggregated lost("o", 0, 1, fl::null); lost.addTerm(&a, w[0], fl::null); lost.addTerm(&l, w[1], fl::null); bool x1 = false; try { d->defuzzify(&lost, 0, 1); } catch (fl::Exception&) { x1 = true; } sx_check(x1, "a value that cannot be computed is an error");
}
// what can be inferred, what is refused, and empty outputs
CASE(inference, "real", 2, 2, "cost=2 time=30") {
    bool avg = SUB & 1; scalar w = sx_real("w", 0.1, 1);
    std::unique_ptr<WeightedDefuzzifier> d(make(avg, "Automatic"));
    Constant k("k", 1); Linear l("l"); Function f("f", "x"); Ramp r("r", 0, 1); Sigmoid s("s", 0, 1); SShape ss("ss", 0, 1); ZShape zs("zs", 0, 1); Concave c("c", 0, 1); Triangle t("t", 0, 1, 2); Gaussian g("g", 0, 1);
    Term* all[] = {&k, &l, &f, &r, &s, &ss, &zs, &c, &t, &g}; // 0-2 Takagi-Sugeno, 3-7 Tsukamoto, 8-9 neither
    int i = sx_choice("i", 10), j = sx_choice("j", 10);
    int ci = i < 3 ? 0 : i < 8 ? 1 : 2, cj = j < 3 ? 0 : j < 8 ? 1 : 2;
    WeightedDefuzzifier::Type want[] = {WeightedDefuzzifier::TakagiSugeno, WeightedDefuzzifier::Tsukamoto, WeightedDefuzzifier::Automatic};
    sx_check(d->inferType(all[i]) == want[ci], "type inferred from a term");
    Aggregated out("o", 0, 1, fl::null); out.addTerm(all[i], w, fl::null); out.addTerm(all[j], w, fl::null);
    Variable var("v", 0, 1); var.addTerm(all[i]->clone()); var.addTerm(all[j]->clone());
    bool threw = false, threwv = false;
    try { sx_check(d->inferType(&out) == want[ci] && ci == cj, "type inferred from the output"); } catch (Exception&) { threw = true; }
    try { sx_check(d->inferType(&var) == want[ci] && ci == cj, "type inferred from a variable"); } catch (Exception&) { threwv = true; }
    sx_check(threw == (ci != cj) && threwv == threw, "mixed terms have no type");
    if (ci != cj || ci == 2) { bool x = false; try { d->defuzzify(&out, 0, 1); } catch (Exception&) { x = true; } sx_check(x, "an output whose type cannot be inferred is refused"); }
    Aggregated none("n", 0, 1, fl::null);
    const char* const ty[] = {"Automatic", "TakagiSugeno", "Tsukamoto"};
    d->setType(S(ty[sx_choice("ty", 3)]));
    scalar v = d->defuzzify(&none, 0, 1); sx_check(v != v, "an empty output is NaN");
    bool x = false; try { d->defuzzify(&r, 0, 1); } catch (Exception&) { x = true; } sx_check(x, "only an aggregated term can be defuzzified");
    x = false; try { d->setType(S("other")); } catch (Exception&) { x = true; } sx_check(x, "unknown types are refused");
}
