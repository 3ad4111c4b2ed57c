// Rule activation: General, First and Last.
// BOUNDS: 1..3 rules (thorough 4), every combination of enabled/disabled/unloaded rules, symbolic degrees and one symbolic weight in [0,1], symbolic threshold in [0,1], count 0..4; exact reals
// BOUNDS: degrees within 4e-6 of 0 or of the threshold but not equal are outside the claim
#include "activation.h"
using namespace fl;
static void fence(const Block& b, scalar th) { for (int i = 0; i < b.n; ++i) { crisp(b.deg[i], 0); crisp(b.deg[i], th); } }
CASE(general, "real", 3, 4, "cost=3") {
    Block b(SUB + 1, SUB == 1 ? 0 : new General, 1, 1); // no activation method means General
    fence(b, 0);
    b.rb->activate();
    bool ex[6]; for (int i = 0; i < b.n; ++i) ex[i] = b.loaded[i] && b.on[i] && b.deg[i] > 0;
    b.checkFired(ex, false); b.checkDegrees(b.deg); b.checkOutput(b.deg);
}
static void firstLast(bool last, int n, bool states) {
    int count = sx_choice("count", n + 2);
    scalar th = sx_real("threshold", 0, 1);
    Block b(n, last ? (Activation*)new Last(count, th) : (Activation*)new First(count, th), states, states ? 0 : 1);
    fence(b, th);
    b.rb->activate();
    bool ex[6] = {false}; int taken = 0;
    for (int j = 0; j < n; ++j) {
        int i = last ? n - 1 - j : j;
        bool sel = b.loaded[i] && taken < count && b.deg[i] > 0 && b.deg[i] >= th;
        if (sel) ++taken; // a disabled rule that is selected keeps its place but does not fire
        ex[i] = sel && b.on[i];
    }
    b.checkFired(ex, last); b.checkDegrees(b.deg); b.checkOutput(b.deg);
}
CASE(first, "real", 5, 7, "cost=6 time=120") { static const int n[] = {1, 2, 3, 1, 2, 3, 4}; firstLast(false, n[SUB], SUB >= 3 && SUB < 6); }
CASE(last, "real", 5, 7, "cost=6 time=120") { static const int n[] = {1, 2, 3, 1, 2, 3, 4}; firstLast(true, n[SUB], SUB >= 3 && SUB < 6); }
CASE(undefined, "real", 3, 3, "") { // a rule whose degree is NaN does not fire and does not disturb the others
    Activation* a = SUB == 0 ? (Activation*)new General : SUB == 1 ? (Activation*)new First(1, 0.0) : (Activation*)new Last(1, 0.0);
    Block b(3, a, 0, 0);
    fence(b, 0);
    int k = sx_choice("nan", 3);
    b.e.getInputVariable(k)->setEnabled(true);
    static_cast<Constant*>(b.e.getInputVariable(k)->getTerm(0))->setValue(fl::nan);
    b.rb->activate();
    bool ex[6] = {false}; int taken = 0;
    for (int j = 0; j < 3; ++j) { int i = SUB == 2 ? 2 - j : j; bool sel = i != k && b.deg[i] > 0 && (SUB == 0 || taken < 1); taken += sel; ex[i] = sel; }
    b.checkFired(ex, SUB == 2);
}
CASE(defaults, "real", 1, 1, "") {
    First f; Last l;
    sx_check(f.getNumberOfRules() == 1 && f.getThreshold() == 0.0 && l.getNumberOfRules() == 1 && l.getThreshold() == 0.0, "defaults: one rule, threshold 0");
}
