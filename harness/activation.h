#ifndef SX_ACTIVATION_H
#define SX_ACTIVATION_H
#include "common.h"
// A block of n rules "if v<i> is t then o is t<i>"; rule i has the symbolic degree w * m[i], observed through the output's activated terms.
struct Block {
    fl::Engine e; fl::RuleBlock* rb; fl::OutputVariable* o; int n; scalar m[6], deg[6]; bool on[6], loaded[6]; fl::Rule* r[6];
    Block(int n, fl::Activation* act, int states, int weighted) : n(n) { // states: 0 all on; 1 each rule on, disabled or unloaded
        using namespace fl;
        char nm[8];
        o = new OutputVariable("o", 0, 1);
        for (int i = 0; i < n; ++i) {
            std::snprintf(nm, sizeof nm, "v%d", i); InputVariable* v = new InputVariable(nm, -1, 1);
            std::snprintf(nm, sizeof nm, "m%d", i); m[i] = sx_real(nm, 0, 1); v->addTerm(new Constant("t", m[i])); v->setValue(0); e.addInputVariable(v);
            std::snprintf(nm, sizeof nm, "t%d", i); o->addTerm(new Constant(nm, i));
        }
        e.addOutputVariable(o);
        rb = new RuleBlock; rb->setConjunction(new AlgebraicProduct); rb->setImplication(new Minimum); rb->setActivation(act);
        for (int i = 0; i < n; ++i) {
            char t[64]; std::snprintf(t, sizeof t, "if v%d is t then o is t%d", i, i);
            r[i] = Rule::parse(t, &e); rb->addRule(r[i]); deg[i] = m[i]; on[i] = loaded[i] = true;
            if (weighted == i + 1) { scalar w = sx_real("w", 0, 1); r[i]->setWeight(w); deg[i] = w * m[i]; }
            if (states) {
                std::snprintf(nm, sizeof nm, "s%d", i); int s = sx_choice(nm, 3);
                if (s == 1) { r[i]->setEnabled(false); on[i] = false; }
                if (s == 2) { r[i]->unload(); loaded[i] = false; deg[i] = 0; }
            }
        }
        e.addRuleBlock(rb);
        // leftovers of an earlier run must not matter
        for (int i = 0; i < n; ++i) { r[i]->setActivationDegree(0.75); r[i]->setTriggered(true); }
    }
    // fired[]: rules whose conclusion reached the output, in order; returns the count
    int fired(int* idx) const {
        int k = 0;
        for (size_t j = 0; j < o->fuzzyOutput()->terms().size(); ++j) for (int i = 0; i < n; ++i) if (o->fuzzyOutput()->terms()[j].getTerm() == o->getTerm(i)) idx[k++] = i;
        return k;
    }
    void checkFired(const bool* expect, bool reverse, bool ordered = true) const {
        int idx[8], k = fired(idx), want = 0; bool inorder = true;
        for (int i = 0; i < n; ++i) want += expect[i];
        for (int j = 0; j < k; ++j) { if (!expect[idx[j]]) { sx_check(false, "only the selected rules fire"); return; } inorder = inorder && (j == 0 || (reverse ? idx[j] < idx[j - 1] : idx[j] > idx[j - 1])); }
        sx_check(k == want, "every selected rule fires once");
        if (ordered) sx_check(inorder, "rules fire in the documented order");
        for (int i = 0; i < n; ++i) sx_check(r[i]->isTriggered() == expect[i], "exactly the fired rules are marked as triggered");
    }
    void checkDegrees(const scalar* d) const { for (int i = 0; i < n; ++i) sx_check(near(r[i]->getActivationDegree(), d[i], 1e-9), "every rule keeps its own degree, 0 if not loaded"); }
    void checkOutput(const scalar* d) const { int idx[8], k = fired(idx); for (int j = 0; j < k; ++j) sx_check(near(o->fuzzyOutput()->terms()[j].getDegree(), d[idx[j]], 1e-9), "the conclusion carries the rule's degree"); }
};
#endif
