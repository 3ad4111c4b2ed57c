// Rule firing: degree times weight, triggering conditions, conclusions with their own hedges.
// BOUNDS: 1..3 conclusions over two output variables, each with one of 6 hedge sequences, every enabled/disabled combination of rule and output variables, symbolic weight in [0,1] (thorough also > 1), symbolic antecedent degree; exact reals
// BOUNDS: activation degrees within 4e-6 of zero but not zero are outside the claim (the library's comparison tolerance)
#include "common.h"
using namespace fl;
static const char* const hedgeText[] = {"", "not ", "very ", "somewhat ", "not very ", "very not "};
static scalar hedged(int h, scalar m) { return h == 0 ? m : h == 1 ? 1 - m : h == 2 ? m * m : h == 3 ? std::sqrt(m) : h == 4 ? 1 - m * m : (1 - m) * (1 - m); }
struct Fix {
    Engine e; scalar m; OutputVariable *o[2];
    Fix() {
        InputVariable* v = new InputVariable("a", -1, 1);
        m = sx_real("m", 0, 1);
        v->addTerm(new Constant("t", m)); v->setValue(0);
        e.addInputVariable(v);
        for (int i = 0; i < 2; ++i) {
            o[i] = new OutputVariable(i ? "fan" : "power", 0, 1);
            o[i]->addTerm(new Constant("low", 1)); o[i]->addTerm(new Constant("high", 2));
            e.addOutputVariable(o[i]);
        }
    }
};
struct Concl { int var, term, h; };
CASE(conclusions, "real", 3, 3, "cost=3") {
    Fix f; int n = SUB + 1;
    static const Concl pat[3] = {{0, 1, 0}, {1, 0, 0}, {0, 0, 0}};
    Concl c[3]; S text = "if a is t then "; char nm[8];
    for (int i = 0; i < n; ++i) {
        c[i] = pat[i];
        std::snprintf(nm, sizeof nm, "h%d", i); c[i].h = sx_choice(nm, n == 3 && i == 2 && !THOROUGH ? 2 : 6);
        text += S(i ? " and " : "") + f.o[c[i].var]->getName() + " is " + hedgeText[c[i].h] + f.o[c[i].var]->getTerm(c[i].term)->getName();
    }
    bool on0 = sx_choice("off0", 2) == 0, on1 = n < 2 || sx_choice("off1", 2) == 0;
    f.o[0]->setEnabled(on0); f.o[1]->setEnabled(on1);
    std::unique_ptr<Rule> r(Rule::parse(text, &f.e));
    Minimum imp; scalar d = sx_real("d", 1e-5, 1);
    r->setActivationDegree(d);
    sx_check(!r->isTriggered(), "not triggered before firing");
    r->trigger(&imp);
    sx_check(r->isTriggered(), "triggered after firing");
    for (int v = 0; v < 2; ++v) {
        const std::vector<Activated>& t = f.o[v]->fuzzyOutput()->terms();
        size_t k = 0; bool ok = true;
        for (int i = 0; i < n; ++i) {
            if (c[i].var != v || !f.o[v]->isEnabled()) continue;
            if (k >= t.size()) { ok = false; break; }
            scalar own = hedged(c[i].h, d), cum = d; bool after = false; // known finding: hedges of earlier conclusions leak into later ones
            for (int j = 0; j <= i; ++j) if (f.o[c[j].var]->isEnabled()) { cum = hedged(c[j].h, cum); after = after || (j < i && c[j].h); }
            if (!after) sx_check(near(t[k].getDegree(), own, 1e-9), "each conclusion gets the rule's degree through its own hedges");
            else {
                sx_check(near(t[k].getDegree(), own, 1e-9) | near(t[k].getDegree(), cum, 1e-9), "conclusion after a hedged conclusion gets its own hedges and at most those before it");
                sx_check(near(t[k].getDegree(), own, 1e-9), "conclusion after a hedged conclusion is independent of it");
            }
            sx_check((t[k].getTerm() == f.o[v]->getTerm(c[i].term)) & (t[k].getImplication() == &imp), "each conclusion activates its term with the implication");
            ++k;
        }
        sx_check(ok && k == t.size(), "exactly the conclusions on enabled variables are added, in order");
    }
}
CASE(weight, "real", 2, 3, "") {
    Fix f;
    scalar w = SUB == 0 ? sx_real("w", 0, 1) : SUB == 1 ? 0.25 : sx_real("w", 0, 4);
    std::unique_ptr<Rule> r(Rule::parse(SUB == 1 ? "if a is t then power is high with 0.25" : "if a is t then power is high", &f.e));
    sx_check(r->getWeight() == (SUB == 1 ? 0.25 : 1.0), "the weight defaults to 1 and is read from the text");
    r->setWeight(w);
    bool on = sx_choice("disabled", 2) == 0; r->setEnabled(on);
    Minimum imp; AlgebraicProduct ap; AlgebraicSum as;
    scalar d = r->activateWith(&ap, &as);
    sx_check(near(d, w * f.m, 1e-9) & near(r->getActivationDegree(), w * f.m, 1e-9), "degree is weight times antecedent");
    crisp(d, 0);
    r->trigger(&imp);
    bool fires = on & (d > 0);
    sx_check(r->isTriggered() == fires, "fires exactly when enabled and its degree is positive");
    const std::vector<Activated>& t = f.o[0]->fuzzyOutput()->terms();
    sx_check((t.size() == 1) == fires && (fires || t.empty()), "a rule that does not fire adds nothing");
    if (!t.empty()) sx_check(near(t[0].getDegree(), w * f.m, 1e-9), "weighted degree reaches the output");
    sx_check(f.o[1]->fuzzyOutput()->terms().empty(), "other variables are untouched");
    r->deactivate();
    sx_check((r->getActivationDegree() == 0.0) & !r->isTriggered(), "deactivation resets degree and state");
}
CASE(undefined, "real", 1, 1, "") { // an antecedent of undefined degree: the degree is undefined, nothing fires
    Fix f; scalar w = sx_real("w", 0, 4); if (sx_choice("none", 2)) w = 0; f.e.getInputVariable(0)->getTerm(0)->configure("nan"); std::unique_ptr<Rule> r(Rule::parse("if a is t then power is high", &f.e)); r->setWeight(w); Minimum imp; AlgebraicProduct ap; AlgebraicSum as;
    scalar d = r->activateWith(&ap, &as), g = r->getActivationDegree(); sx_check((d != d) & (g != g), "undefined whatever the weight"); r->trigger(&imp); sx_check(!r->isTriggered() && f.o[0]->fuzzyOutput()->terms().empty(), "and the rule does not fire");
}
CASE(unloaded, "real", 1, 1, "") {
    Fix f; Minimum imp; AlgebraicProduct ap; AlgebraicSum as;
    Rule r("if a is t then power is high");
    int thrown = 0;
    try { r.trigger(&imp); } catch (Exception&) { ++thrown; }
    try { r.activateWith(&ap, &as); } catch (Exception&) { ++thrown; }
    sx_check(thrown == 2 && !r.isLoaded(), "a rule that is not loaded cannot be used");
    r.load(&f.e);
    scalar d = r.activateWith(&ap, &as);
    crisp(d, 0);
    r.trigger(&imp);
    sx_check(r.isLoaded() && r.isTriggered() == (d > 0), "and can after loading");
    r.load(&f.e);
    sx_check(!r.isTriggered() & (r.getActivationDegree() == 0.0) & r.isEnabled(), "loading resets the rule");
    r.unload();
    sx_check(!r.isLoaded() && r.getActivationDegree() == 0.0, "unloading forgets");
}
