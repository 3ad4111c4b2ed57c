#ifndef SX_COMPARE_H
#define SX_COMPARE_H
#include "terms.h"
// structural comparison of engines; numbers within the printed decimals (values below the last decimal are printed as zero)
namespace cmp {
using namespace fl;
static const scalar E = 0.00051;
static inline bool eq(scalar a, scalar b) { return same(a, b) | near(a, b, E) | ((std::fabs(b) < 0.0010001) & (a == 0)); }
static inline int kindOf(const Term* t) { S c = t->className(); for (int k = 0; k < NSHAPES; ++k) if (c == shapeNames[k]) return k; return -1; }
static inline bool eqTerm(const Term* a, const Term* b) { // a was read, b was written
    if (!a || !b || a->className() != b->className() || a->getName() != b->getName()) return false;
    int k = kindOf(b); bool ok = true;
    if (k >= 0) { scalar p[5], q[5]; int n = k == TRI || k == BELL ? 3 : k == TRA || k == PISH || k == SIGD || k == SIGP || k == GAUP ? 4 : 2; read(a, k, p); read(b, k, q); for (int i = 0; i < n; ++i) ok = ok & eq(p[i], q[i]); return ok & eq(a->getHeight(), b->getHeight()); }
    if (const Discrete* d = dynamic_cast<const Discrete*>(b)) { const Discrete* c = dynamic_cast<const Discrete*>(a); if (c->xy().size() != d->xy().size()) return false; for (size_t i = 0; i < d->xy().size(); ++i) ok = ok & eq(c->xy(i).first, d->xy(i).first) & eq(c->xy(i).second, d->xy(i).second); return ok & eq(a->getHeight(), b->getHeight()); }
    if (const Constant* d = dynamic_cast<const Constant*>(b)) return eq(dynamic_cast<const Constant*>(a)->getValue(), d->getValue());
    if (const Linear* d = dynamic_cast<const Linear*>(b)) { const Linear* c = dynamic_cast<const Linear*>(a); if (c->coefficients().size() != d->coefficients().size()) return false; for (size_t i = 0; i < d->coefficients().size(); ++i) ok = ok & eq(c->coefficients()[i], d->coefficients()[i]); return ok; }
    if (const Function* d = dynamic_cast<const Function*>(b)) { const Function* c = dynamic_cast<const Function*>(a); return c->getFormula() == d->getFormula() && c->isLoaded() == d->isLoaded(); }
    return false;
}
static inline bool eqNorm(const Norm* a, const Norm* b) { return (!a && !b) || (a && b && a->className() == b->className()); }
static inline bool eqDef(const Defuzzifier* a, const Defuzzifier* b) {
    if (!a || !b) return !a && !b;
    if (a->className() != b->className()) return false;
    if (const IntegralDefuzzifier* i = dynamic_cast<const IntegralDefuzzifier*>(b)) return dynamic_cast<const IntegralDefuzzifier*>(a)->getResolution() == i->getResolution();
    if (const WeightedDefuzzifier* w = dynamic_cast<const WeightedDefuzzifier*>(b)) return dynamic_cast<const WeightedDefuzzifier*>(a)->getType() == w->getType();
    return true;
}
static inline bool eqAct(const Activation* a, const Activation* b) {
    if (!a || !b) return !a && !b;
    if (a->className() != b->className()) return false;
    if (const First* f = dynamic_cast<const First*>(b)) { const First* g = dynamic_cast<const First*>(a); return (f->getNumberOfRules() == g->getNumberOfRules()) & eq(g->getThreshold(), f->getThreshold()); }
    if (const Last* f = dynamic_cast<const Last*>(b)) { const Last* g = dynamic_cast<const Last*>(a); return (f->getNumberOfRules() == g->getNumberOfRules()) & eq(g->getThreshold(), f->getThreshold()); }
    if (const Threshold* f = dynamic_cast<const Threshold*>(b)) { const Threshold* g = dynamic_cast<const Threshold*>(a); return (f->getComparison() == g->getComparison()) & eq(g->getValue(), f->getValue()); }
    if (const Highest* f = dynamic_cast<const Highest*>(b)) return f->getNumberOfRules() == dynamic_cast<const Highest*>(a)->getNumberOfRules();
    if (const Lowest* f = dynamic_cast<const Lowest*>(b)) return f->getNumberOfRules() == dynamic_cast<const Lowest*>(a)->getNumberOfRules();
    return true;
}
static inline bool eqVar(const Variable* a, const Variable* b) {
    bool ok = a->getName() == b->getName() && a->numberOfTerms() == b->numberOfTerms();
    ok = ok & (a->getDescription() == b->getDescription()) & (a->isEnabled() == b->isEnabled()) & (a->isLockValueInRange() == b->isLockValueInRange()) & eq(a->getMinimum(), b->getMinimum()) & eq(a->getMaximum(), b->getMaximum());
    if (!ok) return ok;
    for (size_t i = 0; i < b->numberOfTerms(); ++i) ok = ok & eqTerm(a->getTerm(i), b->getTerm(i));
    return ok;
}
static inline bool eqOut(const OutputVariable* a, const OutputVariable* b) {
    return eqVar(a, b) & eqNorm(a->getAggregation(), b->getAggregation()) & eqDef(a->getDefuzzifier(), b->getDefuzzifier()) & eq(a->getDefaultValue(), b->getDefaultValue()) & (a->isLockPreviousValue() == b->isLockPreviousValue());
}
static inline bool eqBlock(const RuleBlock* a, const RuleBlock* b) {
    if (a->getName() != b->getName() || a->getDescription() != b->getDescription() || a->isEnabled() != b->isEnabled() || a->numberOfRules() != b->numberOfRules()) return false;
    bool ok = eqNorm(a->getConjunction(), b->getConjunction()) & eqNorm(a->getDisjunction(), b->getDisjunction()) & eqNorm(a->getImplication(), b->getImplication()) & eqAct(a->getActivation(), b->getActivation());
    for (size_t i = 0; i < b->numberOfRules(); ++i) { const Rule *r = a->getRule(i), *q = b->getRule(i); ok = ok & (r->getText() == q->getText()) & (r->isLoaded() == q->isLoaded()) & eq(r->getWeight(), q->getWeight()) & (r->isEnabled() == q->isEnabled()); }
    return ok;
}
static inline bool eqEngine(const Engine* a, const Engine* b) {
    if (a->getName() != b->getName() || a->getDescription() != b->getDescription() || a->numberOfInputVariables() != b->numberOfInputVariables() || a->numberOfOutputVariables() != b->numberOfOutputVariables() || a->numberOfRuleBlocks() != b->numberOfRuleBlocks()) return false;
    bool ok = true;
    for (size_t i = 0; i < b->numberOfInputVariables(); ++i) ok = ok & eqVar(a->getInputVariable(i), b->getInputVariable(i));
    for (size_t i = 0; i < b->numberOfOutputVariables(); ++i) ok = ok & eqOut(a->getOutputVariable(i), b->getOutputVariable(i));
    for (size_t i = 0; i < b->numberOfRuleBlocks(); ++i) ok = ok & eqBlock(a->getRuleBlock(i), b->getRuleBlock(i));
    return ok;
}
// flags and descriptions that a format has no place for must not matter to what it has
static inline void vary(Engine& e) {
    int k = sx_choice("vary", 4); if (!k) return;
    for (size_t i = 0; i < e.variables().size(); ++i) { Variable* v = e.variables()[i]; if ((k == 1) == (v->type() == Variable::Input) || k == 3) { v->setEnabled(false); v->setLockValueInRange(true); v->setDescription("described"); } }
    if (k == 3) for (size_t i = 0; i < e.numberOfRuleBlocks(); ++i) { RuleBlock* b = e.getRuleBlock(i); b->setEnabled(false); b->setDescription("described"); for (size_t j = 0; j < b->numberOfRules(); ++j) b->getRule(j)->setEnabled(false); }
}
}
#endif
