// Copies of engines, variables and rule blocks are equivalent to and independent of their originals.
// BOUNDS: engines of six kinds (Mamdani, Larsen, Takagi-Sugeno, Tsukamoto, chained rule blocks, functions) with 2 inputs, 2-5 loaded rules; any inputs in [-2,2], symbolic rule weight, every on/off state of one rule, block and variable (of all four rules of two blocks with symbolic weights in a second engine; engines without rule blocks), copied before or after a run; exact reals
#include "engines.h"
using namespace sx;
static scalar in(const char* n) { scalar v = sx_real(n, -2, 2); crisp(v, -0.5); crisp(v, 0); crisp(v, 0.25); crisp(v, 0.5); crisp(v, 1); return v; }
static bool owns(const Engine* e, const Variable* v) { for (size_t i = 0; i < e->variables().size(); ++i) if (e->variables()[i] == v) return true; return false; }
static bool ownsTerm(const Variable* v, const Term* t) { for (size_t i = 0; i < v->numberOfTerms(); ++i) if (v->getTerm(i) == t) return true; return false; }
static bool expr(const Engine* e, const Expression* x) {
    if (!x) return true;
    if (x->type() == Expression::Proposition) { const Proposition* p = static_cast<const Proposition*>(x); return owns(e, p->variable) && ownsTerm(p->variable, p->term); }
    const Operator* o = static_cast<const Operator*>(x); return expr(e, o->left) && expr(e, o->right);
}
// nothing reachable from the copy belongs to another engine
static void closed(const Engine* e) {
    bool rules = true, refs = true, act = true;
    for (size_t i = 0; i < e->numberOfRuleBlocks(); ++i) for (size_t j = 0; j < e->getRuleBlock(i)->numberOfRules(); ++j) {
        const Rule* r = e->getRuleBlock(i)->getRule(j);
        rules = rules && r->isLoaded() && expr(e, r->getAntecedent()->getExpression());
        for (size_t k = 0; k < r->getConsequent()->conclusions().size(); ++k) rules = rules && expr(e, r->getConsequent()->conclusions()[k]);
    }
    for (size_t i = 0; i < e->variables().size(); ++i) for (size_t j = 0; j < e->variables()[i]->numberOfTerms(); ++j) {
        const Term* t = e->variables()[i]->getTerm(j);
        if (const Linear* l = dynamic_cast<const Linear*>(t)) refs = refs && l->getEngine() == e;
        if (const Function* f = dynamic_cast<const Function*>(t)) refs = refs && f->getEngine() == e && f->isLoaded();
    }
    for (size_t i = 0; i < e->numberOfOutputVariables(); ++i) { const OutputVariable* o = e->getOutputVariable(i);
        for (size_t j = 0; j < o->fuzzyOutput()->numberOfTerms(); ++j) { const Activated& a = o->fuzzyOutput()->getTerm(j); act = act && ownsTerm(o, a.getTerm());
            bool own = !a.getImplication(); for (size_t b = 0; b < e->numberOfRuleBlocks(); ++b) own = own || a.getImplication() == e->getRuleBlock(b)->getImplication(); act = act && own; } }
    sx_check(rules, "the rules of a copy refer to the variables and terms of the copy");
    sx_check(refs, "the terms of a copy refer to the copy");
    sx_check(act, "the activations of a copy refer to the terms and operators of the copy");
}
static Engine* copyOf(Engine* e, int how) {
    if (how == 0) return new Engine(*e);
    if (how == 1) return e->clone();
    Engine* f = build(how == 2 ? TSUKAMOTO : MAMDANI); if (how == 3) { set(f, 0.2, 0.7); f->process(); }
    *f = *e; *f = *f; return f;
}
CASE(engine, "real", 6, 12, "cost=8 time=200 max_paths=6000") {
    int kind = SUB % 6;
    std::unique_ptr<Engine> e(build(kind));
    Rule* r = e->getRuleBlock(0)->getRule(1);
    int state = SUB >= 6 ? sx_choice("state", 6) : sx_choice("state", 6);
    if (state == 1) r->setWeight(sx_real("w", 0, 1));
    if (state == 2) r->setEnabled(false);
    if (state == 3) e->getRuleBlock(0)->setEnabled(false);
    if (state == 4) { e->getInputVariable("a")->setEnabled(false); e->getOutputVariable("o")->setLockPreviousValue(true); e->getOutputVariable("o")->setDefaultValue(0.5); }
    if (state == 5) { e->getOutputVariable("o")->setEnabled(false); e->getInputVariable("b")->setLockValueInRange(true); e->setDescription("d"); }
    if (SUB >= 6 || state == 1) { set(e.get(), SUB >= 6 ? in("a0") : 0.3, SUB >= 6 ? 0.3 : 0.7); e->process(); }
    std::unique_ptr<Engine> f(copyOf(e.get(), sx_choice("how", SUB >= 6 ? 4 : 3)));
    sx_check(f->getName() == e->getName() && f->getDescription() == e->getDescription() && f->numberOfInputVariables() == 2 && f->numberOfOutputVariables() == e->numberOfOutputVariables() && f->numberOfRuleBlocks() == e->numberOfRuleBlocks(), "a copy has the same components");
    sx_check(sameOutputs(e.get(), f.get()) && samePrevious(e.get(), f.get()) && sameActivations(e.get(), f.get()), "a copy starts in the state of its original");
    closed(f.get()); closed(e.get());
    scalar a = in("a"), b = in("b");
    set(e.get(), a, b); e->process();
    bool leftAlone = true; // the copy has not moved
    for (int i = 0; i < 2; ++i) { scalar v = f->getInputVariable(i)->getValue(); leftAlone = leftAlone & ((v != v) | (SUB >= 6) | (state == 1)); }
    sx_check(leftAlone, "using the original does not change the copy");
    set(f.get(), a, b); f->process();
    sx_check(sameOutputs(e.get(), f.get()) && samePrevious(e.get(), f.get()) && sameActivations(e.get(), f.get()), "a copy gives the same outputs for the same inputs");
}
// change and destroy one of the two: the other keeps behaving as before
static void wreck(Engine* e) {
    for (size_t i = 0; i < e->variables().size(); ++i) { Variable* v = e->variables()[i]; v->setRange(-9, 9); v->setName("x" + v->getName());
        for (size_t j = 0; j < v->numberOfTerms(); ++j) { Term* t = v->getTerm(j); t->setName("y"); t->setHeight(0.25);
            if (Ramp* q = dynamic_cast<Ramp*>(t)) q->setStart(-7); if (Triangle* q = dynamic_cast<Triangle*>(t)) q->setVertexA(-9); if (Constant* q = dynamic_cast<Constant*>(t)) q->setValue(77);
            if (Linear* q = dynamic_cast<Linear*>(t)) { std::vector<scalar> c(3, 9.0); q->setCoefficients(c); } if (Function* q = dynamic_cast<Function*>(t)) q->load("55 + x"); } }
    for (size_t i = 0; i < e->numberOfOutputVariables(); ++i) { OutputVariable* o = e->getOutputVariable(i); o->setDefaultValue(44); o->setAggregation(new DrasticSum); o->setDefuzzifier(new LargestOfMaximum(2)); }
    for (size_t i = 0; i < e->numberOfRuleBlocks(); ++i) { RuleBlock* b = e->getRuleBlock(i); b->setConjunction(new DrasticProduct); b->setDisjunction(new DrasticSum); b->setImplication(new DrasticProduct); b->setActivation(new First(1, 0.0));
        for (size_t j = 0; j < b->numberOfRules(); ++j) { b->getRule(j)->setWeight(0.1); b->getRule(j)->setEnabled(j == 0); } }
}
CASE(independence, "real", 6, 12, "cost=8 time=200 max_paths=6000") {
    int kind = SUB % 6; 
    std::unique_ptr<Engine> e(build(kind)), g(build(kind));
    if (SUB >= 6) { set(e.get(), 0.3, in("b0")); e->process(); set(g.get(), e->getInputVariable(0)->getValue(), e->getInputVariable(1)->getValue()); g->process(); }
    std::unique_ptr<Engine> f(copyOf(e.get(), sx_choice("how", 3)));
    bool victim = sx_choice("victim", 2);
    std::unique_ptr<Engine> &v = victim ? e : f, &k = victim ? f : e;
    set(v.get(), -1, 1); wreck(v.get());
    if (sx_choice("destroy", 2)) v.reset();
    sx_check(sameOutputs(k.get(), g.get()) && samePrevious(k.get(), g.get()) && sameActivations(k.get(), g.get()), "changing one of two copies leaves the state of the other");
    scalar a = in("a"), b = in("b");
    set(k.get(), a, b); set(g.get(), a, b); k->process(); g->process();
    sx_check(sameOutputs(k.get(), g.get()) && samePrevious(k.get(), g.get()) && sameActivations(k.get(), g.get()), "changing one of two copies leaves the behaviour of the other");
    if (v.get()) closed(v.get());
    closed(k.get());
}
// copies of rule blocks and variables on their own
CASE(parts, "real", 2, 2, "cost=3 time=60") {
    std::unique_ptr<Engine> e(build(SUB ? SUGENO : MAMDANI));
    RuleBlock* b = e->getRuleBlock(0); scalar w = sx_real("w", 0, 1); b->getRule(0)->setWeight(w); b->getRule(1)->setEnabled(false); b->setDescription("d"); b->setEnabled(sx_choice("on", 2));
    bool assign = sx_choice("assign", 2);
    RuleBlock c = assign ? RuleBlock("other") : RuleBlock(*b); if (assign) { c.addRule(new Rule("if x is y then z is w")); c = *b; }
    sx_check(c.getName() == b->getName() && c.getDescription() == "d" && c.isEnabled() == b->isEnabled() && c.numberOfRules() == b->numberOfRules(), "a rule block's copy has its name, description, state and rules");
    bool ops = (!b->getConjunction() == !c.getConjunction()) && (!b->getDisjunction() == !c.getDisjunction()) && (!b->getImplication() == !c.getImplication()) && (!b->getActivation() == !c.getActivation());
    if (ops) ops = (!b->getConjunction() || (b->getConjunction() != c.getConjunction() && b->getConjunction()->className() == c.getConjunction()->className()))
        && (!b->getDisjunction() || (b->getDisjunction() != c.getDisjunction() && b->getDisjunction()->className() == c.getDisjunction()->className()))
        && (!b->getImplication() || (b->getImplication() != c.getImplication() && b->getImplication()->className() == c.getImplication()->className()))
        && (!b->getActivation() || (b->getActivation() != c.getActivation() && b->getActivation()->className() == c.getActivation()->className()));
    sx_check(ops, "a rule block's copy has operators of its own of the same kind");
    bool rs = true; for (size_t i = 0; i < c.numberOfRules(); ++i) rs = rs & (c.getRule(i) != b->getRule(i)) & (c.getRule(i)->getText() == b->getRule(i)->getText()) & (c.getRule(i)->getWeight() == b->getRule(i)->getWeight()) & (c.getRule(i)->isEnabled() == b->getRule(i)->isEnabled());
    sx_check(rs, "a rule block's copy has rules of its own with the same text, weight and state");
    InputVariable* a = e->getInputVariable(0); scalar x = in("x"), val = sx_real("val", -2, 2); a->setValue(val); a->setDescription("q"); a->setEnabled(sx_choice("aon", 2));
    InputVariable d(*a); InputVariable f("f"); f.addTerm(new Constant("z", 1)); f = *a;
    bool ok = true, eq = true;
    for (int i = 0; i < 2; ++i) { InputVariable& y = i ? f : d; ok = ok && y.getName() == "a" && y.getDescription() == "q" && y.isEnabled() == a->isEnabled() && y.numberOfTerms() == 3; eq = eq & (y.getValue() == val) & (y.getMinimum() == a->getMinimum()) & (y.getMaximum() == a->getMaximum());
        for (int t = 0; ok && t < 3; ++t) { ok = ok && y.getTerm(t) != a->getTerm(t) && y.getTerm(t)->getName() == a->getTerm(t)->getName(); eq = eq & near(y.getTerm(t)->membership(x), a->getTerm(t)->membership(x), 1e-12); } }
    sx_check(ok, "a variable's copy has terms of its own with the same names"); sx_check(eq, "a variable's copy has the same value, range and memberships");
}
// assigning over something leaves nothing of what was there
static RuleBlock* blockWith(int m) { // bit i: the i-th optional part is present
    RuleBlock* b = new RuleBlock(m ? "full" : "bare"); if (m & 1) b->setConjunction(new Minimum); if (m & 2) b->setDisjunction(new Maximum); if (m & 4) b->setImplication(new AlgebraicProduct); if (m & 8) b->setActivation(new Threshold(Threshold::LessThan, 0.25));
    if (m & 16) { Rule* r = new Rule("if x is y then z is w with 0.5", 0.5); b->addRule(r); b->addRule(new Rule("if x is y then z is v")); r->setEnabled(false); b->setDescription("d"); b->setEnabled(false); } return b;
}
template <class T> static bool same(const T* a, const T* b) { return (!a && !b) || (a && b && a != b && a->className() == b->className()); }
static OutputVariable* outWith(int m) {
    OutputVariable* o = new OutputVariable(m ? "full" : "bare", m ? -1 : 2, m ? 1 : 3); if (m & 1) o->setAggregation(new AlgebraicSum); if (m & 2) o->setDefuzzifier(new Bisector(17)); if (m & 4) { o->addTerm(new Constant("c", 0.5)); o->addTerm(new Ramp("r", 0, 1)); }
    if ((m & 12) == 12) o->fuzzyOutput()->addTerm(o->getTerm(1), 0.75, fl::null); if (m & 16) { o->setValue(0.25); o->setPreviousValue(0.125); o->setDefaultValue(0.5); o->setLockPreviousValue(!(m & 32)); o->setLockValueInRange(!(m & 64)); o->setEnabled(!!(m & 32)); o->setDescription("d"); } return o;
}
CASE(assigned, "real", 3, 3, "cost=3 time=60") {
    if (SUB == 0) {
        int from = sx_choice("from", 32), onto = sx_choice("onto", 2) ? 31 : 0; std::unique_ptr<RuleBlock> a(blockWith(from)), b(blockWith(onto)); *b = *a;
        sx_check(b->getName() == a->getName() && b->getDescription() == a->getDescription() && b->isEnabled() == a->isEnabled() && b->numberOfRules() == a->numberOfRules(), "name, description, state and number of rules");
        sx_check(same(a->getConjunction(), b->getConjunction()) && same(a->getDisjunction(), b->getDisjunction()) && same(a->getImplication(), b->getImplication()) && same(a->getActivation(), b->getActivation()) && (!a->getActivation() || a->getActivation()->parameters() == b->getActivation()->parameters()), "operators of its own of the same kind, or none");
        bool ok = true; for (size_t i = 0; i < a->numberOfRules(); ++i) ok = ok && a->getRule(i) != b->getRule(i) && a->getRule(i)->getText() == b->getRule(i)->getText() && a->getRule(i)->getWeight() == b->getRule(i)->getWeight() && a->getRule(i)->isEnabled() == b->getRule(i)->isEnabled(); sx_check(ok, "rules of its own");
    } else if (SUB == 1) {
        int from = sx_choice("from", 128), onto = sx_choice("onto", 2) ? 31 : 0; std::unique_ptr<OutputVariable> a(outWith(from)), b(outWith(onto)); *b = *a; OutputVariable c(*a);
        for (int i = 0; i < 2; ++i) { OutputVariable* y = i ? &c : b.get();
            sx_check(y->getName() == a->getName() && y->getDescription() == a->getDescription() && y->isEnabled() == a->isEnabled() && y->isLockPreviousValue() == a->isLockPreviousValue() && y->isLockValueInRange() == a->isLockValueInRange() && y->getMinimum() == a->getMinimum() && y->getMaximum() == a->getMaximum() && Op::isEq(y->getValue(), a->getValue()) && Op::isEq(y->getPreviousValue(), a->getPreviousValue()) && Op::isEq(y->getDefaultValue(), a->getDefaultValue()), "an output variable's copy has its name, flags, range and values");
            sx_check(same(a->getAggregation(), y->getAggregation()) && same(a->getDefuzzifier(), y->getDefuzzifier()) && (!a->getDefuzzifier() || dynamic_cast<Bisector*>(y->getDefuzzifier())->getResolution() == 17), "operators of its own of the same kind, or none");
            sx_check(y->fuzzyOutput() != a->fuzzyOutput() && y->fuzzyOutput()->getName() == a->getName() && y->fuzzyOutput()->getMinimum() == a->getMinimum() && y->fuzzyOutput()->getMaximum() == a->getMaximum(), "a fuzzy output of its own");
            bool ok = y->numberOfTerms() == a->numberOfTerms() && y->fuzzyOutput()->numberOfTerms() == a->fuzzyOutput()->numberOfTerms(); for (size_t t = 0; ok && t < a->numberOfTerms(); ++t) ok = y->getTerm(t) != a->getTerm(t) && y->getTerm(t)->getName() == a->getTerm(t)->getName() && y->getTerm(t)->className() == a->getTerm(t)->className() && y->getTerm(t)->parameters() == a->getTerm(t)->parameters(); sx_check(ok, "terms of its own");
            if (ok && a->fuzzyOutput()->numberOfTerms()) sx_check(y->fuzzyOutput()->getTerm(0).getTerm() == y->getTerm(1) && y->fuzzyOutput()->getTerm(0).getDegree() == 0.75, "activations of its own terms"); }
    } else {
        int from = sx_choice("from", 4), onto = sx_choice("onto", 4); Engine e[2]; for (int i = 0; i < 2; ++i) { int m = i ? onto : from; e[i].setName(m ? "full" : "bare"); if (m & 1) { e[i].setDescription("d"); e[i].addInputVariable(new InputVariable("a", 0, 1)); e[i].addRuleBlock(blockWith(15)); } if (m & 2) { e[i].addOutputVariable(outWith(15)); e[i].addOutputVariable(outWith(0)); e[i].addInputVariable(new InputVariable("b", 0, 1)); } }
        e[1] = e[0]; sx_check(FllExporter().toString(&e[0]) == FllExporter().toString(&e[1]), "an assigned engine has exactly the parts of the other"); closed(&e[1]);
    }
}
// every part of a copy mirrors the part in the same place, whatever its state
static int blockOf(const Engine* e, const TNorm* t) { for (size_t b = 0; b < e->numberOfRuleBlocks(); ++b) if (e->getRuleBlock(b)->getImplication() == t) return (int)b; return -1; }
CASE(mirror, "real", 2, 2, "cost=3 time=60") {
    if (SUB == 0) { // two blocks with implications of their own conclude on the same output; rules weighted and switched off in any combination
        std::unique_ptr<Engine> e(build(MAMDANI)); static const char* const q[] = {"if b is low then o is l", "if a is mid then o is s with 0.75", 0};
        rules(e.get(), "q", fl::null, fl::null, sx_choice("same", 2) ? (TNorm*)new Minimum : new AlgebraicProduct, new General, q);
        int off = sx_choice("off", 16); scalar w[4]; for (int i = 0; i < 4; ++i) { char n[4]; std::snprintf(n, sizeof n, "w%d", i); w[i] = sx_real(n, 0, 1); }
        for (int i = 0; i < 4; ++i) { Rule* r = e->getRuleBlock(i / 2)->getRule(i % 2); r->setWeight(w[i]); r->setEnabled(!(off >> i & 1)); }
        int blocks = sx_choice("blocks", 3); if (blocks) e->getRuleBlock(blocks - 1)->setEnabled(false);
        set(e.get(), 0.25, -0.25); e->process(); std::unique_ptr<Engine> f(copyOf(e.get(), sx_choice("how", 4))); closed(f.get());
        bool ok = f->numberOfRuleBlocks() == 2, act = true; for (int i = 0; ok && i < 4; ++i) { const Rule *r = e->getRuleBlock(i / 2)->getRule(i % 2), *c = f->getRuleBlock(i / 2)->getRule(i % 2); ok = ok && c->getText() == r->getText() && c->isEnabled() == r->isEnabled() && f->getRuleBlock(i / 2)->isEnabled() == e->getRuleBlock(i / 2)->isEnabled() && f->getRuleBlock(i / 2)->getName() == e->getRuleBlock(i / 2)->getName(); }
        bool weights = ok; for (int i = 0; ok && i < 4; ++i) weights = weights & (f->getRuleBlock(i / 2)->getRule(i % 2)->getWeight() == w[i]);
        sx_check(ok, "every rule and block of a copy has the text, name and state of its original"); sx_check(weights, "every rule of a copy has the weight of its original, enabled or not");
        const Aggregated *x = e->getOutputVariable(0)->fuzzyOutput(), *y = f->getOutputVariable(0)->fuzzyOutput(); act = x->numberOfTerms() == y->numberOfTerms();
        for (size_t i = 0; act && i < x->numberOfTerms(); ++i) act = act && blockOf(e.get(), x->getTerm(i).getImplication()) == blockOf(f.get(), y->getTerm(i).getImplication());
        sx_check(act, "every activation of a copy has the implication of the block in the same place");
    } else { // the terms of a copy without rule blocks use the copy
        int kind = sx_choice("kind", 2) ? FUNCTIONS : SUGENO; std::unique_ptr<Engine> e(build(kind)); delete e->removeRuleBlock(0);
        if (sx_choice("none", 2)) { Engine* g = new Engine("bare"); InputVariable* a = new InputVariable(*e->getInputVariable(0)); g->addInputVariable(a); a->addTerm(kind == FUNCTIONS ? (Term*)Function::create("x2", "a + 1", g) : (Term*)new Linear("x2", std::vector<scalar>(2, 1.0), g)); e.reset(g); }
        std::unique_ptr<Engine> f(copyOf(e.get(), sx_choice("how", 4))); closed(f.get()); scalar v = sx_real("v", -2, 2), u = sx_real("u", -2, 2); e->getInputVariable(0)->setValue(u); f->getInputVariable(0)->setValue(v);
        if (f->numberOfOutputVariables()) f->getInputVariable(1)->setValue(0.5);
        const Term* t = f->numberOfOutputVariables() ? f->getOutputVariable(0)->getTerm(1) : f->getInputVariable(0)->getTerm(3);
        scalar want = !f->numberOfOutputVariables() ? v + 1 : kind == FUNCTIONS ? v - 3 * 0.25 : 2 * v - 0.5 + 0.5;
        sx_check(near(t->membership(0.25), want, 1e-9), "the terms of a copy use the values of the copy");
    }
}
