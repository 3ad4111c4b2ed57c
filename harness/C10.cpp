// Consequent terms of Takagi-Sugeno rules: Constant and Linear.
// BOUNDS: 0..3 input variables with symbolic values, 0..5 symbolic coefficients, any evaluation point, input variables enabled or not; exact reals
#include "common.h"
using namespace fl;
CASE(constant, "real", 1, 1, "") {
    scalar c = sx_real("c", -100, 100), x = sx_real("x", -100, 100);
    Constant k("k", c);
    sx_check(near(k.membership(x), c, 0), "constant everywhere");
    sx_check(near(k.membership(fl::inf), c, 0), "constant at infinity");
    std::unique_ptr<Constant> q(k.clone());
    k.setValue(x);
    sx_check(near(q->membership(0.0), c, 0) & near(k.membership(c), x, 0), "clone independent, value replaceable");
}
CASE(linear, "real", 24, 24, "") {
    int nv = SUB / 6, nc = SUB % 6;
    Engine e;
    scalar in[3]; char nm[8];
    for (int i = 0; i < nv; ++i) { std::snprintf(nm, sizeof nm, "v%d", i); e.addInputVariable(new InputVariable(nm, -100, 100)); in[i] = sx_real(nm, -100, 100); e.getInputVariable(i)->setValue(in[i]); }
    int off = sx_choice("off", 3); if (off) { if (off == 2) { e.addOutputVariable(new OutputVariable("o", 0, 1)); e.getOutputVariable(0)->setValue(7); } for (int i = 0; i < nv; ++i) e.getInputVariable(i)->setEnabled(off == 2 && i == 0); } // whether variables are enabled does not matter
    std::vector<scalar> c;
    for (int i = 0; i < nc; ++i) { std::snprintf(nm, sizeof nm, "c%d", i); c.push_back(sx_real(nm, -10, 10)); }
    scalar exp = 0;
    for (int i = 0; i < nv && i < nc; ++i) exp += c[i] * in[i];
    if (nc > nv) exp += c[nc - 1];
    Linear l("l", c, &e);
    scalar x = sx_real("x", -100, 100);
    sx_check(near(l.membership(x), exp, 1e-6), "sum of coefficient times input plus the constant");
    sx_check((int)l.coefficients().size() == nc && l.getEngine() == &e, "keeps coefficients and engine");
    Engine f;
    for (int i = 0; i < nv; ++i) { std::snprintf(nm, sizeof nm, "w%d", i); f.addInputVariable(new InputVariable(nm)); f.getInputVariable(i)->setValue(1.0); }
    std::unique_ptr<Linear> q(l.clone());
    q->updateReference(&f);
    scalar one = 0; for (int i = 0; i < nv && i < nc; ++i) one += c[i];
    if (nc > nv) one += c[nc - 1];
    sx_check(near(q->membership(x), one, 1e-6), "updating the reference reads the other engine");
    sx_check(near(l.membership(x), exp, 1e-6), "and leaves the original alone");
    bool thrown = false;
    try { Linear("z", c).membership(x); } catch (Exception&) { thrown = true; }
    sx_check(thrown, "without an engine it is an error");
    if (nv) { e.getInputVariable(0)->setValue(fl::nan); if (nc) { scalar n = l.membership(x); sx_check(n != n, "NaN input gives NaN"); } }
}
