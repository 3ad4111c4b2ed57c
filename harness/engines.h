#ifndef SX_ENGINES_H
#define SX_ENGINES_H
#include "common.h"
#include "terms.h"
namespace sx {
using namespace fl;
enum Kind { MAMDANI, LARSEN, SUGENO, TSUKAMOTO, CHAINED, FUNCTIONS, KINDS };
static const char* const kinds[] = {"mamdani", "larsen", "sugeno", "tsukamoto", "chained", "functions"};
static inline InputVariable* input(const char* name) {
    InputVariable* v = new InputVariable(name, -1, 1);
    v->addTerm(new Ramp("low", 0.5, -0.5)); v->addTerm(new Triangle("mid", -0.5, 0.25, 1)); v->addTerm(new Ramp("high", -0.5, 0.5));
    return v;
}
static inline OutputVariable* out(const char* name, Defuzzifier* d, SNorm* s) { OutputVariable* o = new OutputVariable(name, 0, 3); o->setDefuzzifier(d); o->setAggregation(s); return o; }
static inline void rules(Engine* e, const char* name, TNorm* c, SNorm* d, TNorm* i, Activation* a, const char* const* text) {
    RuleBlock* b = new RuleBlock(name); b->setConjunction(c); b->setDisjunction(d); b->setImplication(i); b->setActivation(a);
    for (; *text; ++text) b->addRule(Rule::parse(*text, e));
    e->addRuleBlock(b);
}
// a complete engine of the given kind with inputs a and b and output o (CHAINED has an intermediate output p)
static inline Engine* build(int kind) {
    Engine* e = new Engine(kinds[kind]);
    e->addInputVariable(input("a")); e->addInputVariable(input("b"));
    if (kind == MAMDANI || kind == LARSEN) {
        OutputVariable* o = out("o", kind == MAMDANI ? (Defuzzifier*)new Centroid(3) : new Bisector(3), kind == MAMDANI ? (SNorm*)new Maximum : new AlgebraicSum);
        o->addTerm(new Triangle("s", 0, 1, 2)); o->addTerm(new Ramp("l", 1, 3)); e->addOutputVariable(o);
        static const char* const m[] = {"if a is low and b is not low then o is s", "if a is high or b is mid then o is l with 0.5", 0};
        static const char* const l[] = {"if a is low and b is low then o is s", "if a is high then o is l with 0.5", 0};
        rules(e, "r", kind == MAMDANI ? (TNorm*)new Minimum : new AlgebraicProduct, new Maximum, kind == MAMDANI ? (TNorm*)new Minimum : new AlgebraicProduct, new General, kind == MAMDANI ? m : l);
    } else if (kind == SUGENO) {
        OutputVariable* o = out("o", new WeightedAverage, fl::null); e->addOutputVariable(o);
        std::vector<scalar> c; c.push_back(2); c.push_back(-1); c.push_back(0.5);
        o->addTerm(new Constant("s", 2)); o->addTerm(new Linear("l", c, e));
        static const char* const t[] = {"if a is low and b is high then o is s", "if a is high and b is low then o is l with 0.5", "if b is mid then o is s", 0};
        rules(e, "r", new AlgebraicProduct, new AlgebraicSum, fl::null, new General, t);
    } else if (kind == TSUKAMOTO) {
        OutputVariable* o = out("o", new WeightedSum, fl::null); e->addOutputVariable(o);
        o->addTerm(new Ramp("s", 3, 0)); o->addTerm(new Concave("l", 1, 2));
        static const char* const t[] = {"if a is low then o is s", "if b is high then o is l", 0};
        rules(e, "r", fl::null, fl::null, fl::null, new General, t);
    } else if (kind == CHAINED) {
        OutputVariable *p = out("p", new WeightedSum, new Maximum), *o = out("o", new WeightedAverage, new Maximum);
        p->addTerm(new Constant("s", 1)); p->addTerm(new Constant("l", 2)); o->addTerm(new Constant("s", -1)); o->addTerm(new Constant("l", 1));
        e->addOutputVariable(p); e->addOutputVariable(o);
        static const char* const t[] = {"if a is low then p is s", "if a is high then p is l", 0};
        static const char* const u[] = {"if p is l and b is high then o is l", "if p is s then o is s", "if p is l then o is s with 0.25", 0};
        rules(e, "r", new Minimum, fl::null, new AlgebraicProduct, new Highest(1), t);
        rules(e, "q", new AlgebraicProduct, fl::null, new AlgebraicProduct, new Threshold(">", 0.125), u);
    } else {
        OutputVariable* o = out("o", new WeightedAverage("TakagiSugeno"), fl::null); e->addOutputVariable(o);
        o->addTerm(Function::create("s", "2 * a + b", e)); o->addTerm(Function::create("l", "a - 3 * x", e));
        static const char* const t[] = {"if a is low then o is s", "if b is high then o is l", 0};
        rules(e, "r", fl::null, fl::null, fl::null, new General, t);
    }
    return e;
}
static inline void set(Engine* e, scalar a, scalar b) { e->getInputVariable("a")->setValue(a); e->getInputVariable("b")->setValue(b); }
// two engines agree on every output value and on every activation of their fuzzy outputs
static inline bool sameOutputs(const Engine* e, const Engine* f) {
    bool ok = e->numberOfOutputVariables() == f->numberOfOutputVariables();
    for (size_t i = 0; ok && i < e->numberOfOutputVariables(); ++i) {
        scalar v = e->getOutputVariable(i)->getValue(), w = f->getOutputVariable(i)->getValue();
        ok = ok & (((v != v) & (w != w)) | near(v, w, 1e-9));
    }
    return ok;
}
static inline bool samePrevious(const Engine* e, const Engine* f) {
    bool ok = true;
    for (size_t i = 0; i < e->numberOfOutputVariables(); ++i) { scalar p = e->getOutputVariable(i)->getPreviousValue(), q = f->getOutputVariable(i)->getPreviousValue(); ok = ok & (((p != p) & (q != q)) | near(p, q, 1e-9)); }
    return ok;
}
static inline bool sameActivations(const Engine* e, const Engine* f) {
    bool ok = true;
    for (size_t i = 0; i < e->numberOfOutputVariables(); ++i) {
        const Aggregated *x = e->getOutputVariable(i)->fuzzyOutput(), *y = f->getOutputVariable(i)->fuzzyOutput();
        if (x->numberOfTerms() != y->numberOfTerms()) return false;
        for (size_t j = 0; j < x->numberOfTerms(); ++j) ok = ok & near(x->getTerm(j).getDegree(), y->getTerm(j).getDegree(), 1e-9) & (x->getTerm(j).getTerm()->getName() == y->getTerm(j).getTerm()->getName());
    }
    return ok;
}
}
#endif
