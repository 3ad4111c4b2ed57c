// Term and activation parameters: the parameter text of an object configures an equal object, incomplete or malformed texts are refused.
// BOUNDS: 17 shape terms with any parameters in [-8,8] (valid ones), NaN and infinite ones, height in [1/8,1]; discrete terms of 0-4 points, linear terms of 0-4 coefficients, constants, functions; 7 activation methods with any threshold in [-2,2] and counts -1..12; values compared within the printed decimals
#include "terms.h"
using namespace fl;
static const scalar E = 0.00051;
static Term* make(const S& c) { return FactoryManager::instance()->term()->constructObject(c); }
static bool eq(scalar a, scalar b) { return same(a, b) | near(a, b, E) | ((std::fabs(b) < 0.0010001) & (a == 0)); }
CASE(shapes, "real", 17, 17, "cost=2 time=60") {
    Shape s = symShape(SUB, "p", -8, 8, true);
    int odd = sx_choice("special", 4); // one parameter is not finite, or the height is exactly 1
    if (odd == 3) s.h = 1.0; else if (odd) s.p[sx_choice("which", s.n)] = odd == 1 ? fl::inf : fl::nan;
    int way = s.kind <= TRA && odd == 2 ? 1 : sx_choice("how", 2); // a NaN vertex is how those two constructors are told that vertices are left out
    crisp(s.h, 1);
    std::unique_ptr<Term> t(build(s, "t", way));
    scalar q[5]; bool ok = read(t.get(), s.kind, q);
    sx_check(ok, "class"); for (int i = 0; i < s.n; ++i) ok = ok & same(q[i], s.p[i]);
    sx_check(ok & (t->getHeight() == s.h), "constructor and setters set the parameters the getters tell");
    S text = t->parameters(); std::vector<S> tok = Op::split(text, " ");
    sx_check(tok.size() == size_t(s.n) + (s.h == 1.0 ? 0 : 1), "as many parameters as documented, the height only if it is not 1");
    ok = true; for (int i = 0; i < s.n; ++i) ok = ok & eq(Op::toScalar(tok[i]), s.p[i]); sx_check(ok, "parameters are written in the documented order");
    std::unique_ptr<Term> u(make(shapeNames[s.kind])); u->configure(text);
    ok = read(u.get(), s.kind, q); for (int i = 0; i < s.n; ++i) ok = ok & eq(q[i], s.p[i]);
    sx_check(ok & eq(u->getHeight(), s.h), "configuring a term with the parameters of another makes it equal");
    std::unique_ptr<Term> c(t->clone()); ok = read(c.get(), s.kind, q); for (int i = 0; i < s.n; ++i) ok = ok & same(q[i], s.p[i]); sx_check(ok & (c->getHeight() == s.h) & (c->getName() == "t"), "a clone has the same parameters");
    u->configure(""); ok = read(u.get(), s.kind, q); for (int i = 0; i < s.n; ++i) ok = ok & eq(q[i], s.p[i]); sx_check(ok, "an empty text changes nothing");
}
CASE(refused, "real", 17, 17, "cost=1 time=60") { // too few parameters, or one that is not a number
    Shape s = symShape(SUB, "p", -8, 8, true); s.h = 0.5; std::unique_ptr<Term> t(build(s, "t", 0)); std::vector<S> tok = Op::split(t->parameters(), " ");
    int how = sx_choice("how", 3), at = sx_choice("at", s.n + (how ? 1 : 0)); std::vector<S> a = tok;
    if (how == 0) { a.resize(at); if (!at) return; } else if (how == 1) a[at] = "x1"; else a[at] += "x";
    std::unique_ptr<Term> u(make(shapeNames[s.kind])); bool threw = false; try { u->configure(Op::join(a, " ")); } catch (fl::Exception&) { threw = true; }
    sx_check(threw, "too few or malformed parameters are refused");
    // white space between parameters does not matter, the height may be left out
    u.reset(make(shapeNames[s.kind])); tok.pop_back(); u->configure(" " + Op::join(tok, "  ") + " "); scalar q[5]; bool ok = read(u.get(), s.kind, q); for (int i = 0; i < s.n; ++i) ok = ok & eq(q[i], s.p[i]); sx_check(ok & (u->getHeight() == 1.0), "any spacing, and the height is 1 by default");
}
CASE(lists, "real", 5, 5, "cost=1 time=60") { // discrete points, linear coefficients, constants
    int n = SUB; std::vector<Discrete::Pair> xy; std::vector<scalar> c; char nm[8];
    for (int i = 0; i < n; ++i) { std::snprintf(nm, sizeof nm, "x%d", i); scalar x = sx_real(nm, -8, 8); std::snprintf(nm, sizeof nm, "y%d", i); scalar y = sx_real(nm, 0, 1); xy.push_back(Discrete::Pair(x, y)); c.push_back(x); }
    scalar h = sx_choice("unit", 2) ? 1.0 : sx_real("h", 0.125, 0.875);
    Discrete d("d", xy, h); std::unique_ptr<Discrete> e(dynamic_cast<Discrete*>(make("Discrete"))); int was = n == 1 || n == 2 ? sx_choice("was", 3) : 0; if (was) { e->setHeight(was == 1 ? 0.25 : 4.0); e->xy().push_back(Discrete::Pair(9, 1)); } e->configure(d.parameters()); bool ok = e->xy().size() == xy.size();
    for (size_t i = 0; ok && i < xy.size(); ++i) ok = ok & eq(e->xy(i).first, xy[i].first) & eq(e->xy(i).second, xy[i].second);
    sx_check(ok & (eq(e->getHeight(), h)), "points and height of a discrete term");
    Linear l("l", c); std::unique_ptr<Linear> m(dynamic_cast<Linear*>(make("Linear"))); m->configure(l.parameters()); ok = m->coefficients().size() == c.size(); for (size_t i = 0; ok && i < c.size(); ++i) ok = ok & eq(m->coefficients()[i], c[i]); sx_check(ok, "coefficients of a linear term");
    scalar v = n ? c[0] : fl::nan; Constant k("k", v); std::unique_ptr<Constant> q(dynamic_cast<Constant*>(make("Constant"))); q->configure(k.parameters()); sx_check(eq(q->getValue(), v), "value of a constant");
    static const char* const bad[] = {"1 x", "x", "1 2 3 4 x", "0.5 0.5x 1"}; int b = sx_choice("bad", 4); int threw = 0; try { e->configure(bad[b]); } catch (fl::Exception&) { ++threw; } try { m->configure(bad[b]); } catch (fl::Exception&) { ++threw; } try { q->configure(b == 1 ? "x" : "2x"); } catch (fl::Exception&) { ++threw; } sx_check(threw == 3, "anything but numbers is refused");
    static const char* const f[] = {"x", "2 * x + 1", "sin ( x ) ^ 2", "~x"}; Function fn("f", f[b]); fn.load(); std::unique_ptr<Function> g(dynamic_cast<Function*>(make("Function"))); g->configure(fn.parameters()); sx_check(g->isLoaded() && g->getFormula() == f[b] && g->parameters() == fn.parameters() && same(g->membership(0.5), fn.membership(0.5)), "formula of a function"); threw = 0; try { g->configure("1 +"); } catch (fl::Exception&) { ++threw; } sx_check(threw == 1, "an ill-formed formula is refused");
}
static Activation* method(const S& c) { return FactoryManager::instance()->activation()->constructObject(c); }
CASE(methods, "real", 7, 7, "cost=1 time=60") {
    static const char* const names[] = {"First", "Last", "Highest", "Lowest", "Threshold", "General", "Proportional"};
    static const char* const cmp[] = {"<", "<=", "==", "!=", ">=", ">"};
    std::unique_ptr<Activation> a(method(names[SUB])); scalar t = SUB == 0 || SUB == 1 || SUB == 4 ? sx_real("threshold", -2, 2) : 0; int n = SUB < 4 ? sx_choice("n", 14) - 1 : 1, c = SUB == 4 ? sx_choice("cmp", 6) : 0;
    sx_check(a->className() == names[SUB], "the method named");
    S text;
    if (SUB < 2) text = Op::str(n) + " " + Op::str(t); else if (SUB < 4) text = Op::str(n); else if (SUB == 4) text = S(cmp[c]) + " " + Op::str(t);
    a->configure(text);
    for (int again = 0; again < 3; ++again) {
        if (SUB == 0) { First* f = dynamic_cast<First*>(a.get()); sx_check((f->getNumberOfRules() == n) & eq(f->getThreshold(), t), "number and threshold of First"); }
        if (SUB == 1) { Last* f = dynamic_cast<Last*>(a.get()); sx_check((f->getNumberOfRules() == n) & eq(f->getThreshold(), t), "number and threshold of Last"); }
        if (SUB == 2) sx_check(dynamic_cast<Highest*>(a.get())->getNumberOfRules() == n, "number of Highest");
        if (SUB == 3) sx_check(dynamic_cast<Lowest*>(a.get())->getNumberOfRules() == n, "number of Lowest");
        if (SUB == 4) { Threshold* f = dynamic_cast<Threshold*>(a.get()); static const Threshold::Comparison k[] = {Threshold::LessThan, Threshold::LessThanOrEqualTo, Threshold::EqualTo, Threshold::NotEqualTo, Threshold::GreaterThanOrEqualTo, Threshold::GreaterThan};
            sx_check((f->getComparison() == k[c]) & (f->comparisonOperator() == cmp[c]) & eq(f->getValue(), t), "comparison and value of Threshold"); sx_check(f->availableComparisonOperators().size() == 6 && f->availableComparisonOperators()[c] == cmp[c] && f->parseComparison(cmp[c]) == k[c] && f->comparisonOperator(k[c]) == cmp[c], "names of the comparisons"); }
        if (SUB > 4) sx_check(a->parameters().empty(), "no parameters");
        if (again == 0) { std::unique_ptr<Activation> b(method(names[SUB])); b->configure(a->parameters()); a = std::move(b); } else if (again == 1) { a.reset(a->clone()); a->configure(""); }
    }
    if (SUB < 5) { static const char* const bad[] = {"x", "x 1", "1 y", "1", "> ", "= 1", "=> 0.5", ">"}; int b = sx_choice("bad", 8); bool refuse = SUB < 2 ? b != 99 : SUB < 4 ? b != 2 && b != 3 : true; bool threw = false; std::unique_ptr<Activation> d(method(names[SUB])); try { d->configure(bad[b]); } catch (fl::Exception&) { threw = true; } sx_check(threw == refuse, "incomplete or malformed parameters are refused"); }
}
