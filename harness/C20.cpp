// Fuzzification: activations of a variable's terms, the fuzzy value text, the maximally activated terms, sorting by centroid.
// BOUNDS: up to 4 terms with any membership in [-1,1], NaN or an error each; values and parameters exact reals; sorting up to 4 terms (constants, linear terms, concrete triangles and failing terms mixed); sorting within a symbolic range of at least 0.5 inside [-20,20] at resolution 3
#include "common.h"
using namespace fl;
struct Level : public Term { scalar v; int mode; Level(const S& n, scalar v, int m) : Term(n), v(v), mode(m) {}
    S className() const { return "Level"; } S parameters() const { return ""; } void configure(const S&) {}
    Term* clone() const { return new Level(*this); }
    scalar membership(scalar) const { if (mode == 2) throw Exception("level"); return mode == 1 ? fl::nan : v; } };
static const char* const nm[] = {"a", "b2", "c_", "d"};
CASE(activations, "real", 6, 8, "cost=4 time=120") {
    int n = SUB / 2 + 1; bool input = SUB & 1;
    std::unique_ptr<Variable> v(input ? (Variable*)new InputVariable("v", -1, 1) : (Variable*)new OutputVariable("v", -1, 1));
    scalar y[4]; int mode[4]; char s[8]; S text;
    for (int i = 0; i < n; ++i) {
        std::snprintf(s, sizeof s, "y%d", i); y[i] = sx_real(s, -1, 1); std::snprintf(s, sizeof s, "m%d", i); mode[i] = i < 3 ? sx_choice(s, 3) : 0;
        v->addTerm(new Level(nm[i], y[i], mode[i]));
    }
    scalar x = sx_real("x", -5, 5);
    std::vector<Activated> a = v->activations(x);
    sx_check(a.size() == (size_t)n, "one activation per term");
    scalar top = 0; int first = -1, cnt = 0; bool isMax[4];
    for (int i = 0; i < n; ++i) {
        sx_check(a[i].getTerm() == v->getTerm(i) && a[i].getImplication() == fl::null, "activations follow the order of the terms");
        scalar want = mode[i] ? fl::nan : y[i];
        sx_check(same(a[i].getDegree(), want), "the degree is the membership, NaN if it cannot be computed");
        if (!mode[i]) crisp(y[i], 0);
        if (mode[i] == 0 && y[i] > top) { top = y[i]; first = i; }
    }
    for (int i = 0; i < n; ++i) { isMax[i] = false; if (mode[i] == 0 && first >= 0 && y[i] == top) { isMax[i] = true; ++cnt; } }
    std::vector<Activated> m = v->maxActivations(x);
    sx_check(m.size() == (size_t)cnt, "every term with the largest positive degree is maximal");
    for (size_t j = 0, i = 0; j < m.size(); ++j, ++i) { while (i < (size_t)n && !isMax[i]) ++i; sx_check(i < (size_t)n && m[j].getTerm() == v->getTerm(i) && m[j].getDegree() == top, "maximal terms in order"); }
    scalar h = 77; Term* t = v->highestMembership(x, &h);
    if (first < 0) sx_check(t == fl::null && h != h, "no positive degree: no highest term and NaN");
    else sx_check(t == v->getTerm(first) && h == top, "the highest term is the first with the largest degree");
    sx_check(v->highestMembership(x) == t, "the degree is optional");
}
CASE(text, "real", 3, 3, "cost=4 time=120") {
    int n = SUB + 1;
    InputVariable v("v", -1, 1); S want; char s[8];
    scalar x = sx_real("x", -5, 5);
    for (int i = 0; i < n; ++i) {
        std::snprintf(s, sizeof s, "y%d", i); scalar y = sx_real(s, -1, 1); std::snprintf(s, sizeof s, "m%d", i); int m = sx_choice(s, 3);
        v.addTerm(new Level(nm[i], y, m));
        bool neg = m == 0 && y < 0;
        want += i == 0 ? (neg ? "-" : "") : (neg ? " - " : " + ");
        want += (m ? S("nan") : Op::str(std::fabs(y))) + "/" + nm[i];
    }
    sx_check(v.fuzzify(x) == want, "fuzzy value lists sign, degree and name of every term");
    v.setValue(x); sx_check(v.fuzzyInputValue() == want, "fuzzy input value is the one at the current value");
}
CASE(output_text, "real", 4, 4, "cost=4 time=120") { // the fuzzy output value groups the activations per term
    OutputVariable o("o", -1, 1); char s[8]; scalar deg[3] = {0, 0, 0}; int op = SUB;
    if (op == 1) o.setAggregation(new Maximum); if (op == 2) o.setAggregation(new AlgebraicSum); if (op == 3) o.setAggregation(new BoundedSum);
    for (int i = 0; i < 3; ++i) o.addTerm(new Constant(nm[i], i));
    int k = sx_choice("k", 4);
    for (int j = 0; j < k; ++j) {
        std::snprintf(s, sizeof s, "t%d", j); int t = sx_choice(s, 3); std::snprintf(s, sizeof s, "d%d", j); scalar d = sx_real(s, 0, 1);
        o.fuzzyOutput()->addTerm(o.getTerm(t), d, fl::null);
        scalar& g = deg[t]; g = op == 0 ? g + d : op == 1 ? mx(g, d) : op == 2 ? g + d - g * d : mn(1, g + d);
    }
    sx_check(o.fuzzyOutput()->numberOfTerms() == (size_t)k, "activations are kept");
    S text = o.fuzzyOutputValue(); 
    // every term once, in the order of the variable, with the grouped degree
    S rest = text;
    for (int i = 0; i < 3; ++i) {
        size_t p = rest.find('/'); sx_check(p != S::npos, "one entry per term"); if (p == S::npos) return;
        scalar d = Op::toScalar(rest.substr(0, p));
        sx_check(near(d, deg[i], 1.2e-3), "grouped degree");
        S tail = S("/") + nm[i] + (i < 2 ? " + " : "");
        sx_check(rest.compare(p, tail.size(), tail) == 0, "names in the order of the variable's terms");
        rest = rest.size() >= p + tail.size() ? rest.substr(p + tail.size()) : S();
    }
    sx_check(rest.empty(), "nothing else");
}
CASE(sorting, "real", 3, 6, "cost=5 time=120") {
    static const int cnt[] = {2, 3, 3, 4, 4, 4};
    int n = cnt[SUB]; Engine e; InputVariable* a = new InputVariable("a", -10, 10); e.addInputVariable(a); a->setValue(sx_real("a", -10, 10));
    OutputVariable v("v", -4, 4); scalar key[4]; Term* t[4]; char s[8];
    for (int i = 0; i < n; ++i) {
        std::snprintf(s, sizeof s, "k%d", i); scalar k = sx_real(s, -10, 10);
        std::snprintf(s, sizeof s, "c%d", i); int c = sx_choice(s, SUB == 3 ? 2 : 4);
        switch (c) {
        case 0: t[i] = new Constant(nm[i], k); key[i] = k; break;
        case 1: { std::vector<scalar> co; co.push_back(0.5); co.push_back(k); t[i] = new Linear(nm[i], co, &e); key[i] = 0.5 * a->getValue() + k; break; }
        case 2: t[i] = new Triangle(nm[i], i - 3, i - 2, i - 1); key[i] = i - 2; crisp(k, key[i]); break;
        default: t[i] = new Level(nm[i], 0, 2); key[i] = 1e9; break; // a term that fails goes last
        }
        v.addTerm(t[i]);
    }
    for (int i = 0; i < n; ++i) for (int j = 0; j < i; ++j) crisp(key[i], key[j]);
    v.sort();
    sx_check(v.numberOfTerms() == (size_t)n, "sorting keeps the number of terms");
    bool used[4] = {false, false, false, false}; scalar last = -1e18; bool ok = true;
    for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) if (v.getTerm(i) == t[j]) { ok = ok && !used[j]; used[j] = true; sx_check(key[j] >= last - 1e-6, "terms ascend by centroid"); last = key[j]; }
    for (int j = 0; j < n; ++j) ok = ok && used[j];
    sx_check(ok, "sorting permutes the terms");
}
// the centroid of a term is over the range of the variable and no more
CASE(ranged, "real", 1, 1, "cost=2 time=60") {
    IntegralDefuzzifier::setDefaultResolution(3); scalar lo = sx_real("lo", -20, 20), hi = sx_real("hi", -20, 20), k = sx_real("k", -30, 30); sx_assume(lo + 0.5 <= hi); int c = sx_choice("c", 3);
    scalar mid = 0.5 * (lo + hi); sx_assume(std::fabs(k - mid) > 4e-6); Variable v("v", lo, hi); if (c == 2) v.setRange(lo, hi);
    Term* r = new Rectangle("r", -100, 100); Term* q = new Constant("q", k); v.addTerm(c ? q : r); v.addTerm(c ? r : q); v.sort();
    sx_check(v.numberOfTerms() == 2 && (v.getTerm(0) == r) == (k > mid) && (v.getTerm(1) == q) == (k > mid), "the centroid of a term is over the range of its variable");
}
