// Antecedent evaluation: operator precedence, parentheses, hedges, disabled variables, output variables.
// BOUNDS: 1..4 propositions, every and/or combination, 13 parenthesis layouts, symbolic memberships in [0,1] of every proposition, 10 hedge sequences per proposition, every sequence of up to 3 (thorough 4) of 5 hedges with and without 'any' in a single proposition, every subset of disabled variables (up to 2 propositions; one disabled for 3-4); exact reals
// BOUNDS: rule texts are concrete per path (all combinations are enumerated as solver-forked choices); memberships, input values and hedged degrees are symbolic
#include "common.h"
using namespace fl;
static const char* const hedgeText[] = {"", "not", "very", "not very", "very not", "any", "not any", "somewhat", "not very not", "very not very"};
static scalar root(scalar t) { return std::sqrt(t); }
static scalar hedged(int h, scalar m) {
    switch (h) {
        case 0: return m;
        case 1: return 1 - m;
        case 2: return m * m;
        case 3: return 1 - m * m;
        case 4: return (1 - m) * (1 - m);
        case 5: return 1;
        case 6: return 0;
        case 7: return root(m);
        case 8: return 1 - (1 - m) * (1 - m);
        default: return (1 - m * m) * (1 - m * m);
    }
}
// independent recursive-descent evaluation of a layout: L = next proposition, o = next connective, 'and' binds tighter
struct Ref {
    const char* s; const scalar* leaf; const int* op; int li, oi; int norm;
    scalar T(scalar a, scalar b) { return norm ? mn(a, b) : a * b; }
    scalar N(scalar a, scalar b) { return norm ? mx(a, b) : a + b - a * b; }
    scalar prim() { if (*s == '(') { ++s; scalar v = orx(); ++s; return v; } ++s; return leaf[li++]; }
    scalar andx() { scalar v = prim(); while (*s == 'o' && op[oi] == 0) { ++s; ++oi; v = T(v, prim()); } return v; }
    scalar orx() { scalar v = andx(); while (*s == 'o' && op[oi] == 1) { ++s; ++oi; v = N(v, andx()); } return v; }
};
static const char* const layouts[] = {"L", "LoL", "LoLoL", "(LoL)oL", "Lo(LoL)", "(L)", "((LoL))", "LoLoLoL", "(LoL)o(LoL)", "Lo(LoLoL)", "(LoLoL)oL", "Lo(LoL)oL", "((LoL)oL)oL"};
static int count(const char* s, char c) { int n = 0; for (; *s; ++s) n += *s == c; return n; }
static const char* const vn[] = {"alpha", "beta", "gamma", "delta"};
struct Fix {
    Engine e; scalar m[4];
    Fix(int n) {
        for (int i = 0; i < n; ++i) {
            char nm[8]; std::snprintf(nm, sizeof nm, "m%d", i);
            InputVariable* v = new InputVariable(vn[i], -1, 1);
            m[i] = sx_real(nm, 0, 1);
            std::snprintf(nm, sizeof nm, "u%d", i);
            v->addTerm(new Constant("low", sx_real(nm, 0, 1)));
            v->addTerm(new Constant("high", m[i]));
            v->setValue(0.25);
            e.addInputVariable(v);
        }
        OutputVariable* o = new OutputVariable("power", 0, 1);
        o->addTerm(new Constant("big", 1)); o->addTerm(new Constant("tiny", 1));
        e.addOutputVariable(o);
    }
};
static S write(const char* lay, const int* op, const int* hed, const char* const* var, const char* const* term, bool tight) {
    S r = "if ";
    int l = 0, o = 0;
    for (const char* p = lay; *p; ++p) {
        if (*p == 'L') {
            r += S(var[l]) + " is";
            if (*hedgeText[hed[l]]) r += S(" ") + hedgeText[hed[l]];
            if (hed[l] != 5 && hed[l] != 6) r += S(" ") + term[l];
            ++l;
        } else if (*p == 'o') r += op[o++] ? " or " : " and ";
        else if (*p == '(') r += tight ? "(" : "( ";
        else r += tight ? ")" : " )";
    }
    return r + " then power is big";
}
static void run(int lay, int norm, bool hedges, bool disabling) {
    const char* L = layouts[lay];
    int n = count(L, 'L');
    Fix f(n);
    int op[3] = {0, 0, 0}, hed[4] = {0, 0, 0, 0}; bool on[4] = {true, true, true, true};
    const char* term[4] = {"high", "high", "high", "high"};
    char nm[8];
    for (int i = 0; i + 1 < n; ++i) { std::snprintf(nm, sizeof nm, "op%d", i); op[i] = sx_choice(nm, 2); }
    if (hedges) {
        if (n <= 2) for (int i = 0; i < n; ++i) { std::snprintf(nm, sizeof nm, "h%d", i); hed[i] = sx_choice(nm, 10); }
        else { int k = sx_choice("hedged", n); hed[k] = sx_choice("h", 10); }
    }
    if (disabling) {
        if (n <= 2) for (int i = 0; i < n; ++i) { std::snprintf(nm, sizeof nm, "on%d", i); on[i] = sx_choice(nm, 2) == 0; }
        else { int k = sx_choice("off", n); on[k] = false; }
    }
    S text = write(L, op, hed, vn, term, lay % 2 == 0);
    std::unique_ptr<Rule> r(Rule::parse(text, &f.e));
    AlgebraicProduct ap; AlgebraicSum as; Minimum mi; Maximum ma;
    scalar leaf[4];
    for (int i = 0; i < n; ++i) { f.e.getInputVariable(i)->setEnabled(on[i]); leaf[i] = on[i] ? hedged(hed[i], f.m[i]) : 0.0; }
    Ref ref = {L, leaf, op, 0, 0, norm};
    scalar expect = ref.orx();
    scalar v = norm ? r->activateWith(&mi, &ma) : r->activateWith(&ap, &as);
    sx_check(near(v, expect, 1e-9), "degree follows precedence, parentheses, hedges and enabled variables");
    sx_check(near(r->getActivationDegree(), expect, 1e-9), "the rule keeps its degree");
    sx_check(near(norm ? r->getAntecedent()->activationDegree(&mi, &ma) : r->getAntecedent()->activationDegree(&ap, &as), expect, 1e-9), "evaluating again gives the same");
}
CASE(structure, "real", 26, 26, "cost=2") { run(SUB % 13, SUB / 13, false, false); }
CASE(hedges, "real", 13, 13, "cost=5") { run(SUB, 0, true, false); }
// every sequence of up to three (thorough four) hedges, with or without 'any' at the term's place; the hedges' own meaning is C03's
CASE(hedge_sequences, "real", 10, 10, "cost=4 time=120") {
    static const char* const names[] = {"not", "very", "somewhat", "seldom", "extremely"};
    Not h0; Very h1; Somewhat h2; Seldom h3; Extremely h4; Hedge* hs[] = {&h0, &h1, &h2, &h3, &h4};
    bool any = SUB >= 5; int n = sx_choice("n", THOROUGH ? 4 : 3), k[4]; char nm[8];
    k[0] = SUB % 5; for (int i = 1; i <= n; ++i) { std::snprintf(nm, sizeof nm, "k%d", i); k[i] = sx_choice(nm, 5); }
    Fix f(1);
    S text = "if alpha is"; for (int i = 0; i <= n; ++i) text += S(" ") + names[k[i]];
    text += any ? " any then power is big" : " high then power is big";
    std::unique_ptr<Rule> r(Rule::parse(text, &f.e));
    scalar v = any ? 1.0 : f.m[0]; for (int i = n; i >= 0; --i) v = hs[k[i]]->hedge(v);
    sx_check(near(r->activateWith(fl::null, fl::null), v, 1e-9), "the hedges apply in order from the term outwards");
}
CASE(disabled, "real", 13, 13, "cost=3") { run(SUB, 0, SUB < 2, true); }
// the variable's value and the term decide the degree of a proposition
CASE(fuzzification, "real", 2, 2, "") {
    Engine e;
    InputVariable* a = new InputVariable("a", -10, 10); InputVariable* b = new InputVariable("b", -10, 10);
    e.addInputVariable(a); e.addInputVariable(b);
    OutputVariable* o = new OutputVariable("o", 0, 1); o->addTerm(new Constant("k", 1)); e.addOutputVariable(o);
    scalar x = sx_real("x", -10, 10), y = sx_real("y", -10, 10);
    a->addTerm(new Ramp("up", 0, 1)); a->addTerm(new Ramp("down", 1, 0));
    b->addTerm(new Ramp("down", 5, -5)); b->addTerm(new Ramp("up", -5, 5));
    a->setValue(x); b->setValue(y);
    scalar ua = mn(1.0, mx(0.0, x)), ub = mn(1.0, mx(0.0, (y + 5) / 10));
    std::unique_ptr<Rule> r(Rule::parse(SUB ? "if a is up and b is not down then o is k" : "if a is not down or b is up then o is k", &e));
    AlgebraicProduct ap; AlgebraicSum as;
    scalar v = r->activateWith(&ap, &as);
    crisp(x, 0); crisp(x, 1); crisp(y, -5); crisp(y, 5);
    sx_check(near(v, SUB ? ua * ub : ua + ub - ua * ub, 1e-5), "membership of the variable's current value in the named term");
}
// an output variable in an antecedent is judged by its aggregated fuzzy output
CASE(output_variable, "real", 4, 4, "") {
    Engine e;
    OutputVariable* o = new OutputVariable("o", 0, 1);
    o->addTerm(new Constant("big", 1)); o->addTerm(new Constant("tiny", 0)); e.addOutputVariable(o);
    Minimum mi; scalar d1 = sx_real("d1", 0, 1), d2 = sx_real("d2", 0, 1), d3 = sx_real("d3", 0, 1);
    bool sum = SUB % 2;
    o->setAggregation(sum ? (SNorm*)new AlgebraicSum : (SNorm*)new Maximum);
    o->fuzzyOutput()->addTerm(o->getTerm("big"), d1, &mi);
    o->fuzzyOutput()->addTerm(o->getTerm("tiny"), d2, &mi);
    o->fuzzyOutput()->addTerm(o->getTerm("big"), d3, &mi);
    o->setValue(sx_real("v", 0, 1));
    std::unique_ptr<Rule> r(Rule::parse(SUB / 2 ? "if o is not big then o is tiny" : "if o is big then o is tiny", &e));
    scalar g = sum ? d1 + d3 - d1 * d3 : mx(d1, d3);
    AlgebraicProduct ap; AlgebraicSum as;
    sx_check(near(r->activateWith(&ap, &as), SUB / 2 ? 1 - g : g, 1e-9), "aggregated activation of the term in the fuzzy output");
    o->setEnabled(false);
    sx_check(r->activateWith(&ap, &as) == 0.0, "disabled output variable counts as 0");
}
CASE(missing_operator, "real", 8, 8, "") { // only the operators that are used are needed, and they are needed
    int lay = SUB % 4;
    Fix f(count(layouts[lay], 'L'));
    int op[3] = {0, 0, 0}, hed[4] = {0, 0, 0, 0}; const char* term[4] = {"high", "low", "high", "low"};
    int n = count(layouts[lay], 'L'); bool ands = false, ors = false; char nm[8];
    for (int i = 0; i + 1 < n; ++i) { std::snprintf(nm, sizeof nm, "op%d", i); op[i] = sx_choice(nm, 2); (op[i] ? ors : ands) = true; }
    std::unique_ptr<Rule> r(Rule::parse(write(layouts[lay], op, hed, vn, term, true), &f.e));
    AlgebraicProduct ap; AlgebraicSum as; bool noAnd = SUB / 4, thrown = false;
    try { r->activateWith(noAnd ? fl::null : &ap, noAnd ? &as : fl::null); } catch (Exception&) { thrown = true; }
    sx_check(thrown == (noAnd ? ands : ors), "error exactly when a used operator is missing");
    thrown = false;
    r->unload();
    try { r->activateWith(&ap, &as); } catch (Exception&) { thrown = true; }
    sx_check(thrown, "a rule that is not loaded is an error");
}
