// A run depends on the current inputs only: no history, no leftovers, restart.
// BOUNDS: engines of six kinds (Mamdani, Larsen, Takagi-Sugeno, Tsukamoto, chained rule blocks, functions) with 2 inputs, 2-5 rules; any inputs in [-2,2] in each of 2 (thorough 3) runs, plus NaN inputs, interrupted and disabled runs before; exact reals, inputs off the comparison tolerance of the term vertices
#include "engines.h"
using namespace sx;
static scalar in(const char* n) { scalar v = sx_real(n, -2, 2); crisp(v, -0.5); crisp(v, 0); crisp(v, 0.25); crisp(v, 0.5); crisp(v, 1); return v; }
// any run, then a run with the inputs of a fresh engine
CASE(history, "real", 6, 12, "cost=8 time=200 max_paths=6000") {
    int kind = SUB % 6;
    std::unique_ptr<Engine> e(build(kind)), f(build(kind));
    int how = sx_choice("how", 3);
    if (how == 0) { scalar a0 = in("a0"); set(e.get(), a0, THOROUGH ? in("b0") : 0.3); e->process(); if (SUB >= 6) { set(e.get(), in("a1"), 0.3); e->process(); } }
    if (how == 1) { // NaN inputs, repeated, failed and partly disabled runs
        set(e.get(), fl::nan, 0.3); try { e->process(); } catch (Exception&) { }
        set(e.get(), 0.3, -0.3); e->process(); e->process();
        set(e.get(), 0.3, 0.4); Defuzzifier* d = e->getOutputVariable("o")->getDefuzzifier()->clone(); e->getOutputVariable("o")->setDefuzzifier(fl::null); bool x = false; try { e->process(); } catch (Exception&) { x = true; } sx_check(x, "a missing defuzzifier stops the run"); e->getOutputVariable("o")->setDefuzzifier(d);
        e->getRuleBlock(0)->setEnabled(false); e->process(); e->getRuleBlock(0)->setEnabled(true); e->getRuleBlock(0)->getRule(0)->setEnabled(false); e->process(); e->getRuleBlock(0)->getRule(0)->setEnabled(true);
    }
    if (how == 2) { set(e.get(), 0.3, 0.4); e->process(); e->restart();
        for (size_t i = 0; i < e->numberOfInputVariables(); ++i) { scalar v = e->getInputVariable(i)->getValue(); sx_check(v != v, "restart forgets the inputs"); }
        for (size_t i = 0; i < e->numberOfOutputVariables(); ++i) { OutputVariable* o = e->getOutputVariable(i); scalar v = o->getValue(), p = o->getPreviousValue(); sx_check((v != v) & (p != p) & o->fuzzyOutput()->isEmpty(), "restart forgets the outputs"); } }
    scalar a = in("a"), b = in("b");
    set(e.get(), a, b); set(f.get(), a, b);
    e->process(); f->process();
    sx_check(sameActivations(e.get(), f.get()), "the activations do not depend on the runs before");
    sx_check(sameOutputs(e.get(), f.get()), "the outputs do not depend on the runs before");
    bool same = true; 
    for (size_t i = 0; i < e->numberOfRuleBlocks(); ++i) for (size_t j = 0; j < e->getRuleBlock(i)->numberOfRules(); ++j) { Rule *r = e->getRuleBlock(i)->getRule(j), *q = f->getRuleBlock(i)->getRule(j); same = same & near(r->getActivationDegree(), q->getActivationDegree(), 1e-9) & (r->isTriggered() == q->isTriggered()); }
    sx_check(same, "degrees and triggers of the rules do not depend on the runs before");
    sx_check((e->getInputVariable("a")->getValue() == a) & (e->getInputVariable("b")->getValue() == b), "a run leaves the inputs as they are");
}
// two runs with the same inputs give the same outputs, and the second does not accumulate on the first
CASE(repeat, "real", 6, 6, "cost=6 time=200 max_paths=6000") {
    std::unique_ptr<Engine> e(build(SUB)), f(build(SUB));
    scalar a = in("a"), b = in("b");
    set(e.get(), a, b); set(f.get(), a, b);
    f->process(); e->process(); e->process();
    sx_check(sameActivations(e.get(), f.get()) && sameOutputs(e.get(), f.get()), "running again changes nothing");
    OutputVariable* o = e->getOutputVariable("o"); 
    sx_check(same(o->getValue(), o->getPreviousValue()), "the previous value is the value of the run before");
}
// parts switched off between two runs: nothing of the run before is left in them
CASE(switched, "real", 6, 6, "cost=6 time=200 max_paths=6000") {
    std::unique_ptr<Engine> e(build(SUB)), f(build(SUB));
    int which = sx_choice("which", 2 + int(e->numberOfOutputVariables()));
    set(e.get(), in("a0"), 0.3); e->process();
    Engine* es[] = { e.get(), f.get() };
    for (int i = 0; i < 2; ++i) { if (which == 0) es[i]->getInputVariable("b")->setEnabled(false); else if (which == 1) es[i]->getRuleBlock(0)->setEnabled(false); else es[i]->getOutputVariable(size_t(which - 2))->setEnabled(false); }
    scalar a = in("a"), b = 0.4, before = e->getOutputVariable(0)->getValue();
    set(e.get(), a, b); set(f.get(), a, b); e->process(); f->process();
    sx_check(sameActivations(e.get(), f.get()), "the activations of a run before do not survive in parts switched off");
    for (size_t i = 0; i < e->numberOfOutputVariables(); ++i) { OutputVariable *o = e->getOutputVariable(i), *p = f->getOutputVariable(i); if (o->isEnabled()) sx_check(same(o->getValue(), p->getValue()) | near(o->getValue(), p->getValue(), 1e-9), "enabled outputs do not depend on the runs before"); }
    if (which == 2) sx_check(same(e->getOutputVariable(0)->getValue(), before), "a disabled output keeps its value");
}
