// Output variables: defuzzified value, default value, locked previous value, locked range, across runs.
// BOUNDS: every double (NaN and infinities included) for the defuzzified result, current value, previous value, default value and range; histories of 3 (thorough 4) runs with enable, disable, clear and empty outputs
#include "common.h"
using namespace fl;
struct Given : public Defuzzifier { scalar v; bool fails; Given(scalar v) : v(v), fails(false) {}
    S className() const { return "Given"; }
    Defuzzifier* clone() const { return new Given(*this); }
    scalar defuzzify(const Term*, scalar, scalar) const { if (fails) throw Exception("given"); return v; } };
static scalar clip(scalar v, bool lock, scalar lo, scalar hi) { return (v != v) | !lock ? v : v > hi ? hi : v < lo ? lo : v; }
static scalar next(scalar given, bool lockPrev, scalar prev, scalar def) {
    scalar v = given;
    v = ((v != v) & lockPrev) ? prev : v;
    return v != v ? def : v;
}
// one run from any state
CASE(step, "fp", 4, 4, "cost=3 time=120") {
    bool lockPrev = SUB & 1, lockRange = SUB & 2;
    OutputVariable o("o"); scalar lo = sx_fp("lo"), hi = sx_fp("hi"); sx_assume(lo <= hi); o.setRange(lo, hi);
    sx_check((o.getMinimum() == lo) & (o.getMaximum() == hi), "range is kept");
    scalar val = sx_fp("val"), prev = sx_fp("prev"), def = sx_fp("def"), res = sx_fp("res");
    o.setLockValueInRange(lockRange); o.setLockPreviousValue(lockPrev); o.setValue(val); o.setPreviousValue(prev); o.setDefaultValue(def);
    scalar cur = clip(val, lockRange, lo, hi);
    sx_check(same(o.getValue(), cur), "a value is clipped to the range only if locked");
    Given* g = new Given(res); o.setDefuzzifier(g);
    switch (sx_choice("how", 3)) {
    case 0: {
        o.defuzzify();
        sx_check(same(o.getValue(), clip(next(res, lockPrev, prev, def), lockRange, lo, hi)), "result, else locked previous value, else default value, then clipped");
        sx_check(same(o.getPreviousValue(), cur), "the value before the run becomes the previous value");
        break; }
    case 1: {
        o.setEnabled(false); o.defuzzify();
        sx_check(same(o.getValue(), cur) & same(o.getPreviousValue(), prev), "a disabled variable keeps its values");
        break; }
    default: {
        bool x = false, nodef = sx_choice("null", 2);
        g->fails = true; if (nodef) o.setDefuzzifier(fl::null);
        try { o.defuzzify(); } catch (Exception&) { x = true; }
        sx_check(x, "a missing or failing defuzzifier is an error");
        sx_check(same(o.getValue(), cur) & same(o.getPreviousValue(), prev), "a failed run keeps the values");
        break; }
    }
    sx_check(same(o.getDefaultValue(), def), "the default value is kept");
    o.clear();
    sx_check(((o.getValue() != o.getValue()) | lockRange) & (o.getPreviousValue() != o.getPreviousValue()), "clear forgets the values");
}
// histories of runs on a real fuzzy output: some runs leave it empty
CASE(history, "fp", 4, 4, "cost=6 time=200") {
    bool lockPrev = SUB & 1, lockRange = SUB & 2; char nm[16];
    OutputVariable o("o", -1, 1); o.setLockValueInRange(lockRange); o.setLockPreviousValue(lockPrev);
    scalar def = sx_fp("def"); o.setDefaultValue(def);
    sx_check((o.getValue() != o.getValue()) & (o.getPreviousValue() != o.getPreviousValue()), "a new variable has no values");
    Given* g = new Given(0); o.setDefuzzifier(g);
    scalar v[5], cur = fl::nan, prev = fl::nan; bool anylock = false;
    for (int i = 0; i < (THOROUGH ? 4 : 3); ++i) {
        std::snprintf(nm, sizeof nm, "r%d", i); v[i] = sx_fp(nm); g->v = v[i];
        std::snprintf(nm, sizeof nm, "op%d", i);
        int op = sx_choice(nm, 3);
        if (op == 1) { o.setEnabled(false); o.defuzzify(); o.setEnabled(true); sx_check(same(o.getValue(), cur) & same(o.getPreviousValue(), prev), "a disabled run changes nothing"); continue; }
        if (op == 2) { o.clear(); cur = prev = fl::nan; sx_check((o.getValue() != o.getValue()) & o.fuzzyOutput()->isEmpty(), "clear forgets the value and the fuzzy output"); continue; }
        o.defuzzify();
        scalar doc = clip(next(v[i], lockPrev, cur, def), lockRange, -1, 1), kept = clip(next(v[i], lockPrev, prev, def), lockRange, -1, 1);
        sx_check(same(o.getPreviousValue(), cur), "the previous value is the value of the run before");
        sx_check(same(o.getValue(), doc) | same(o.getValue(), kept), "value after a run");
        sx_check(same(o.getValue(), doc), "a locked previous value is the value of the run before");
        prev = cur; cur = o.getValue(); anylock |= lockPrev;
    }
}
// the weighted defuzzifier and the fuzzy output: NaN exactly when nothing is activated; the fuzzy output follows the variable
CASE(wiring, "real", 2, 2, "cost=2 time=60") {
    OutputVariable o("o", -2, 2); scalar w = sx_real("w", 0.01, 1), z = sx_real("z", -4, 4), def = sx_real("def", -4, 4);
    Term* t = new Constant("t", z); o.addTerm(t); o.setDefaultValue(def); o.setDefuzzifier(new WeightedAverage); o.setLockValueInRange(SUB == 1);
    o.setAggregation(new Maximum);
    sx_check(o.getAggregation() == o.fuzzyOutput()->getAggregation() && o.getAggregation()->className() == "Maximum", "the aggregation is the one of the fuzzy output");
    bool full = sx_choice("full", 2);
    if (full) o.fuzzyOutput()->addTerm(t, w, fl::null);
    o.defuzzify();
    scalar want = full ? z : def; if (SUB == 1) want = want > 2 ? 2 : want < -2 ? -2 : want;
    sx_check(near(o.getValue(), want, 1e-9), "defuzzified value or default");
    o.setName("p"); o.setRange(-3, 5);
    sx_check(o.fuzzyOutput()->getName() == "p" && o.fuzzyOutput()->getMinimum() == -3 && o.fuzzyOutput()->getMaximum() == 5, "the fuzzy output follows name and range");
    OutputVariable c(o), d; d = o;
    sx_check(same(c.getValue(), o.getValue()) & same(c.getPreviousValue(), o.getPreviousValue()) & same(c.getDefaultValue(), def) & same(d.getValue(), o.getValue()) & same(d.getDefaultValue(), def), "copies keep the state");
    o.clear(); o.defuzzify();
    c.defuzzify();
    scalar again = full ? z : def; if (SUB == 1) again = again > 5 ? 5 : again < -3 ? -3 : again;
    sx_check(near(c.getValue(), again, 1e-9), "a copy is independent of its original");
}
