// Rule activation: Highest and Lowest.
// BOUNDS: 1..4 rules (thorough 5), every combination of enabled/disabled/unloaded rules (up to 3 rules), symbolic degrees, one symbolic weight in [0,1], count 0..n+1; exact reals
// BOUNDS: degrees within 4e-6 of 0 but not equal (and of each other when a weight is symbolic) are outside the claim; among rules of equal degree any choice is allowed
#include "activation.h"
using namespace fl;
static void run(bool lowest, int n, bool states, int weighted) {
    int count = n == 4 && !THOROUGH ? 1 + sx_choice("count", 3) : sx_choice("count", n + 2);
    Block b(n, lowest ? (Activation*)new Lowest(count) : (Activation*)new Highest(count), states, weighted);
    for (int i = 0; i < n; ++i) { crisp(b.deg[i], 0); if (weighted) for (int q = 0; q < i; ++q) sx_assume(std::fabs(b.deg[i] - b.deg[q]) > 4e-6); }
    b.rb->activate();
    // candidates: loaded with positive degree; a disabled candidate keeps its place but does not fire
    bool cand[6]; int total = 0;
    for (int i = 0; i < n; ++i) { cand[i] = b.loaded[i] && b.deg[i] > 0; total += cand[i]; }
    int idx[8], k = b.fired(idx);
    bool fire[6] = {false};
    for (int j = 0; j < k; ++j) { fire[idx[j]] = true; sx_check(cand[idx[j]] && b.on[idx[j]], "only enabled loaded rules with a positive degree fire"); }
    for (int j = 1; j < k; ++j) sx_check(lowest ? b.deg[idx[j - 1]] <= b.deg[idx[j]] : b.deg[idx[j - 1]] >= b.deg[idx[j]], "rules fire in order of degree");
    bool among = true, beyond = true;
    for (int i = 0; i < n; ++i) {
        int better = 0, tied = 0; // candidates strictly before i, and tied with it
        for (int q = 0; q < n; ++q) if (cand[q] && q != i) { better += lowest ? b.deg[q] < b.deg[i] : b.deg[q] > b.deg[i]; tied += b.deg[q] == b.deg[i]; }
        if (cand[i] && b.on[i]) {
            if (fire[i]) beyond &= better < count; else among &= better + tied >= count;
        }
        sx_check(b.r[i]->isTriggered() == fire[i], "exactly the fired rules are marked as triggered");
    }
    sx_check(among, "a rule among the best fires");
    sx_check(beyond, "a rule beyond the count does not fire");
    bool allOn = true; for (int i = 0; i < n; ++i) allOn = allOn && b.on[i];
    if (allOn) sx_check(k == (total < count ? total : count), "as many rules fire as the count allows");
    sx_check(k <= count, "never more than the count");
    b.checkDegrees(b.deg); b.checkOutput(b.deg);
}
static const int N[] = {1, 2, 3, 4, 1, 2, 3, 5};
CASE(highest, "real", 7, 8, "cost=6 time=120") { run(false, N[SUB], SUB >= 4 && SUB < 7, SUB == 2 ? 2 : 0); }
CASE(lowest, "real", 7, 8, "cost=6 time=120") { run(true, N[SUB], SUB >= 4 && SUB < 7, SUB == 2 ? 2 : 0); }
CASE(defaults, "real", 1, 1, "") { sx_check(Highest().getNumberOfRules() == 1 && Lowest().getNumberOfRules() == 1, "one rule by default"); }
