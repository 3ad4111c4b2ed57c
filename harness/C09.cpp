// Activated terms (implication) and aggregated terms (aggregation).
// BOUNDS: up to 3 activated triangles (thorough 4) with symbolic degrees and a symbolic point, 7 implication x 8 aggregation operators of the factories; exact reals
// BOUNDS: degrees and memberships up to 3 or 4 (above 1 by heights, weights and sums) for minimum, algebraic product, bounded difference, maximum and unbounded sum, up to 1 for the others
// BOUNDS: degrees and memberships inside the 1e-6 tolerance of a norm's discontinuity are outside the claim
#include "terms.h"
using namespace fl;
static const char* tn[] = {"Minimum", "AlgebraicProduct", "BoundedDifference", "EinsteinProduct"};
static const char* sn[] = {"Maximum", "AlgebraicSum", "BoundedSum", "NormalizedSum", "UnboundedSum"};
static scalar T(int k, scalar a, scalar b) { return k == 0 ? mn(a, b) : k == 1 ? a * b : k == 2 ? mx(0.0, a + b - 1.0) : a * b / (2.0 - (a + b - a * b)); }
static scalar Sn(int k, scalar a, scalar b) { return k == 0 ? mx(a, b) : k == 1 ? a + b - a * b : k == 2 ? mn(1.0, a + b) : k == 3 ? (a + b) / mx(1.0, a + b) : a + b; }
CASE(activated, "real", 4, 4, "") {
    std::unique_ptr<TNorm> t(FactoryManager::instance()->tnorm()->constructObject(tn[SUB]));
    Constant m("k", sx_real("m", 0, SUB < 3 ? 4 : 1)); // membership of the term at x; heights, weights and unbounded sums may exceed 1
    scalar d = sx_real("d", 0, SUB < 3 ? 4 : 1), x = sx_real("x", -5, 5);
    Activated a(&m, d, t.get());
    sx_check(near(a.membership(x), T(SUB, m.getValue(), d), 1e-9), "implication of membership and degree");
    sx_check((a.getDegree() == d) & (a.getTerm() == &m) & (a.getImplication() == t.get()), "keeps term, degree and implication");
    sx_check(a.getName() == "k", "named after its term");
    scalar v = a.membership(fl::nan);
    sx_check(v != v, "NaN for NaN");
    std::unique_ptr<Activated> c(a.clone());
    a.setDegree(0.0);
    sx_check(near(c->membership(x), T(SUB, m.getValue(), d), 1e-9), "clone keeps its degree");
    bool e1 = false, e2 = false;
    try { Activated(fl::null, d, t.get()).membership(x); } catch (Exception&) { e1 = true; }
    try { Activated(&m, d, fl::null).membership(x); } catch (Exception&) { e2 = true; }
    sx_check(e1 && e2, "missing term or implication is an error");
}
CASE(aggregated, "real", 20, 20, "") {
    int k = SUB % 5, n = 1 + SUB / 5; // 1..4 activated terms
    if (n == 4 && !THOROUGH && k == 3) n = 3;
    std::unique_ptr<SNorm> s(FactoryManager::instance()->snorm()->constructObject(sn[k]));
    AlgebraicProduct prod; Minimum mini;
    Aggregated g("out", -1, 1, s->clone());
    std::vector<std::unique_ptr<Constant> > terms;
    scalar e = 0.0, x = sx_real("x", -5, 5);
    for (int i = 0; i < n; ++i) {
        char nm[8];
        scalar most = k == 0 || k == 4 ? 3 : 1; std::snprintf(nm, sizeof nm, "m%d", i); scalar m = sx_real(nm, 0, most);
        std::snprintf(nm, sizeof nm, "d%d", i); scalar d = sx_real(nm, 0, most);
        terms.push_back(std::unique_ptr<Constant>(new Constant("k", m)));
        if (i % 2) g.addTerm(terms.back().get(), d, &mini); else g.addTerm(Activated(terms.back().get(), d, &prod));
        e = Sn(k, e, i % 2 ? mn(m, d) : m * d);
    }
    sx_check(near(g.membership(x), e, 1e-9), "aggregation folds all activated terms");
    scalar v = g.membership(fl::nan);
    sx_check(v != v, "NaN for NaN");
    Aggregated c(g);
    Aggregated a("other", 0, 0);
    a.addTerm(terms[0].get(), 1.0, &prod);
    a = g;
    g.clear();
    sx_check(near(c.membership(x), e, 1e-9) & near(a.membership(x), e, 1e-9), "copies aggregate the same");
    sx_check((c.getMinimum() == -1) & (a.getMaximum() == 1) && a.getName() == "out" && (int)a.terms().size() == n, "copies keep name, range and terms");
    sx_check(near(g.membership(x), 0.0, 0.0), "nothing activated: membership 0");
    Aggregated bare("bare", 2, 3); a = bare; sx_check(a.isEmpty() && a.getAggregation() == fl::null && a.getName() == "bare" && (a.getMinimum() == 2) & (a.getMaximum() == 3) & (a.membership(x) == 0.0), "an assigned fuzzy output has nothing of what it was before");
    for (int i = 0; i < 2; ++i) { Activated t(i ? terms[0].get() : fl::null, 0.5, &prod); sx_check(t.isMonotonic() == (i && terms[0]->isMonotonic()), "an activated term is monotonic if its term is"); }
}
CASE(no_aggregation, "real", 1, 1, "") {
    Constant m("k", sx_real("m", 0, 1)); Minimum mini;
    scalar x = sx_real("x", -5, 5);
    Aggregated g("out", -1, 1);
    sx_check(g.membership(x) == 0.0, "nothing activated: membership 0 without operator");
    g.addTerm(&m, sx_real("d", 0, 1), &mini);
    bool thrown = false;
    try { g.membership(x); } catch (Exception&) { thrown = true; }
    sx_check(thrown, "activated terms without aggregation operator is an error");
}
// degree of one term and of groups: conclusions repeated by several rules
CASE(degrees, "real", 6, 6, "") {
    int k = SUB; // 5: no aggregation operator -> plain sum
    Aggregated g("out", -1, 1, k < 5 ? FactoryManager::instance()->snorm()->constructObject(sn[k]) : fl::null);
    Constant A("a", 1), B("b", 2);
    Minimum mini;
    const int pattern[4] = {0, 1, 0, 1};
    scalar e[2] = {0, 0}, d[4];
    for (int i = 0; i < 4; ++i) {
        char nm[8]; std::snprintf(nm, sizeof nm, "d%d", i); d[i] = sx_real(nm, 0, 1);
        const Constant& t = pattern[i] ? B : A;
        g.addTerm(&t, d[i], &mini);
        e[pattern[i]] = k < 5 ? Sn(k, e[pattern[i]], d[i]) : e[pattern[i]] + d[i];
    }
    sx_check(near(g.activationDegree(&A), e[0], 1e-9) & near(g.activationDegree(&B), e[1], 1e-9), "degree of a term aggregates its activations");
    Constant C("c", 3);
    sx_check(g.activationDegree(&C) == 0.0, "a term never activated has degree 0");
    Aggregated gr = g.grouped();
    sx_check(gr.terms().size() == 2 && gr.getTerm(0).getTerm() == &A && gr.getTerm(1).getTerm() == &B, "grouping keeps one activation per term in order");
    if (gr.terms().size() == 2) sx_check(near(gr.getTerm(0).getDegree(), e[0], 1e-9) & near(gr.getTerm(1).getDegree(), e[1], 1e-9), "grouped degrees");
    sx_check((gr.getMinimum() == -1) & (gr.getMaximum() == 1) & ((gr.getAggregation() != fl::null) == (k < 5)), "grouping keeps range and operator");
}
CASE(highest, "real", 1, 1, "") {
    Aggregated g("out", -1, 1, new Maximum);
    Constant A("a", 1), B("b", 2), C("c", 3);
    const Constant* t[3] = {&A, &B, &C};
    Minimum mini;
    scalar d[3], hi = 0;
    for (int i = 0; i < 3; ++i) { char nm[8]; std::snprintf(nm, sizeof nm, "d%d", i); d[i] = sx_real(nm, 0, 1); g.addTerm(t[i], d[i], &mini); hi = mx(hi, d[i]); }
    Activated h = g.highestActivatedTerm();
    std::vector<Activated> all = g.maximallyActivatedTerms();
    sx_check(near(h.getDegree(), hi, 0.0), "highest degree");
    int first = -1, cnt = 0;
    for (int i = 0; i < 3; ++i) if (hi > 0.0 && d[i] == hi) { if (first < 0) first = i; ++cnt; }
    sx_check(h.getTerm() == (first < 0 ? (const Term*)0 : t[first]), "first term with the highest degree, none if nothing is active");
    sx_check((int)all.size() == cnt, "all maximally activated terms");
}
// the fluent setters, and what the terms say of themselves
CASE(described, "real", 4, 4, "cost=2 time=60") {
    Minimum mini; AlgebraicProduct prod; Constant A("a", 1), B("b", 2); scalar d = sx_real("d", 1, 4), w = sx_real("w", 1, 4), lo = sx_real("lo", -8, -1), hi = sx_real("hi", 1, 8); const TNorm* t = SUB & 1 ? (const TNorm*)&prod : SUB & 2 ? fl::null : (const TNorm*)&mini; SNorm* s = SUB & 2 ? (SNorm*)new BoundedSum : SUB & 1 ? fl::null : (SNorm*)new Maximum;
    Aggregated g("out"); std::vector<Activated> more; more.push_back(Activated(&B, w, t)); more.push_back(Activated(&A, w, &prod)); Aggregated* same_ = &g.term(&A, d, t).terms(more).range(lo, hi).aggregation(s);
    sx_check(same_ == &g && g.numberOfTerms() == 3 && g.getTerm(0).getTerm() == &A && g.getTerm(1).getTerm() == &B && g.getTerm(2).getTerm() == &A && g.getTerm(0).getImplication() == t && g.getTerm(2).getImplication() == &prod && g.getAggregation() == s, "the fluent setters add and set in order");
    sx_check((g.getTerm(0).getDegree() == d) & (g.getTerm(1).getDegree() == w) & (g.getMinimum() == lo) & (g.getMaximum() == hi) & (g.range() == hi - lo), "with the values given");
    S op = s ? s->className() : S("none"), im = t ? t->className() : S("none"), D = Op::str(d), V = Op::str(w);
    Activated x(&A, d, t); S txt = t ? im + "(" + D + ",a)" : "(" + D + "*a)", txt2 = t ? im + "(" + V + ",b)" : "(" + V + "*b)";
    sx_check(x.className() == "Activated" && x.toString() == txt && x.parameters() == D + " " + im + " " + FllExporter().toString(&A), "an activated term tells its implication, degree and term");
    S sep = s ? "," : "+"; sx_check(g.className() == "Aggregated" && g.toString() == "out: Aggregated " + (s ? op : S()) + "[" + txt + sep + txt2 + sep + "AlgebraicProduct(" + V + ",a)]", "an aggregated term tells its operator and activations");
    S pre = op + " " + Op::str(lo) + " " + Op::str(hi); sx_check(g.parameters().substr(0, pre.size()) == pre, "and its operator and range");
    x.configure("1 2 3"); g.configure("1 2 3"); sx_check((x.getDegree() == d) & (g.getMinimum() == lo) & (g.getMaximum() == hi) && g.numberOfTerms() == 3, "neither is configured by text");
    g.setRange(hi, lo); sx_check((g.getMinimum() == hi) & (g.getMaximum() == lo), "the range is as set");
}
