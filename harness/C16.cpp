// Rule activation: Proportional and Threshold.
// BOUNDS: 1..4 rules, every combination of enabled/disabled/unloaded rules (up to 3 rules), symbolic degrees, one symbolic weight in [0,1], symbolic threshold in [-0.5,1.5], all six comparisons; exact reals
// BOUNDS: degrees within 4e-6 of 0 or of the threshold but not equal, and proportional shares below 4e-6, are outside the claim
#include "activation.h"
using namespace fl;
CASE(proportional, "real", 7, 7, "cost=5 time=120") {
    static const int N[] = {1, 2, 3, 4, 1, 2, 3};
    Block b(N[SUB], new Proportional, SUB >= 4, SUB == 2 ? 1 : 0);
    scalar sum = 0; for (int i = 0; i < b.n; ++i) { crisp(b.deg[i], 0); sum += b.deg[i]; } // unloaded rules count 0
    b.rb->activate();
    bool ex[6]; bool any = sum > 0;
    if (!any) { scalar z[6] = {0, 0, 0, 0, 0, 0}; for (int i = 0; i < b.n; ++i) ex[i] = false; b.checkFired(ex, false); b.checkDegrees(z); return; }
    scalar total = 0;
    for (int i = 0; i < b.n; ++i) {
        ex[i] = b.loaded[i] && b.on[i] && b.deg[i] > 0;
        sx_check(near(b.r[i]->getActivationDegree() * sum, b.deg[i], 1e-9), "each degree is its share of the sum");
        total += b.r[i]->getActivationDegree();
    }
    sx_check(near(total, 1.0, 1e-9), "the shares add up to 1");
    b.checkFired(ex, false);
    int idx[8], k = b.fired(idx);
    for (int j = 0; j < k; ++j) sx_check(near(b.o->fuzzyOutput()->terms()[j].getDegree() * sum, b.deg[idx[j]], 1e-9), "the conclusion carries the share");
}
static const char* const cmp[] = {"<", "<=", "==", "!=", ">=", ">"};
static bool sel(int c, scalar d, scalar t) { return c == 0 ? d < t : c == 1 ? d <= t : c == 2 ? d == t : c == 3 ? d != t : c == 4 ? d >= t : d > t; }
CASE(threshold, "real", 12, 18, "cost=4 time=120") {
    int c = SUB % 6, n = SUB / 6 == 0 ? 3 : SUB / 6 == 1 ? 2 : 3; bool states = SUB / 6 > 0;
    scalar th = sx_real("threshold", -0.5, 1.5);
    Threshold* t = new Threshold(cmp[c], th);
    sx_check(t->comparisonOperator() == cmp[c] && t->getValue() == th, "keeps comparison and threshold");
    Block b(n, t, states, states ? 0 : 1);
    for (int i = 0; i < n; ++i) { crisp(b.deg[i], 0); crisp(b.deg[i], th); }
    b.rb->activate();
    bool ex[6]; for (int i = 0; i < n; ++i) ex[i] = b.loaded[i] && b.on[i] && b.deg[i] > 0 && sel(c, b.deg[i], th);
    b.checkFired(ex, false); b.checkDegrees(b.deg); b.checkOutput(b.deg);
}
CASE(comparison, "real", 6, 6, "") {
    scalar d = sx_real("d", -1, 2), th = sx_real("t", -1, 2); crisp(d, th);
    Threshold t; t.setThreshold(cmp[SUB], th);
    sx_check(t.activatesWith(d) == sel(SUB, d, th), "comparison operator");
    Threshold u((Threshold::Comparison)SUB, th);
    static const Threshold::Comparison order[] = {Threshold::LessThan, Threshold::LessThanOrEqualTo, Threshold::EqualTo, Threshold::NotEqualTo, Threshold::GreaterThanOrEqualTo, Threshold::GreaterThan};
    u.setComparison(order[SUB]);
    sx_check(u.activatesWith(d) == sel(SUB, d, th) && u.comparisonOperator() == cmp[SUB], "comparison value");
    std::unique_ptr<Threshold> k(t.clone());
    sx_check(k->activatesWith(d) == sel(SUB, d, th), "clone compares the same");
}
// close to the threshold the comparisons still agree with each other: one of three holds, and the others follow from them
CASE(together, "fp", 1, 1, "") {
    scalar d = sx_fp("d"), th = sx_fp("t"); sx_assume((d > -4) & (d < 4) & (th > -4) & (th < 4)); bool is[6]; Threshold t; for (int c = 0; c < 6; ++c) { t.setThreshold(cmp[c], th); is[c] = t.activatesWith(d); }
    sx_check(((int)is[0] + (int)is[2] + (int)is[5]) == 1, "smaller, equal or greater");
    sx_check((is[3] == !is[2]) & (is[1] == (is[0] | is[2])) & (is[4] == (is[5] | is[2])), "the other comparisons follow"); sx_check((d != th) | is[2], "the threshold is equal to itself");
}
