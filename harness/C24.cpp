// Readiness: a ready engine processes any input without error, exactly the missing parts are reported; engine types.
// BOUNDS: 2 inputs, 2 outputs (integral, weighted or no defuzzifier), 1-2 rule blocks with 0-2 rules out of 8 shapes (further antecedents nested to depth 3 with up to three conclusions) (the wording of the report as the engine has it), every operator present or missing; any inputs in [-2,2], NaN or infinite; the white space around a connective is any white-space character; exact reals
#include "engines.h"
using namespace sx;
static scalar in(const char* n) { scalar v = sx_real(n, -2, 2); crisp(v, -0.5); crisp(v, 0); crisp(v, 0.25); crisp(v, 0.5); crisp(v, 1); return v; }
static S white(const char* n) { int c = sx_byte(n); sx_assume((c == ' ') | ((c >= 9) & (c <= 13))); return S(1, (char)c); }
// shape of a rule: text, needs a conjunction, a disjunction, concludes on o, on p
struct Shape2 { S text; bool c, d, o, p; };
static Shape2 shape(int k, bool sym) {
    S w = sym ? white("w1") : " ", v = sym ? white("w2") : " ";
    switch (k) {
    case 0: return Shape2{"if a is low then o is s", false, false, true, false};
    case 1: return Shape2{"if a is low" + w + "and" + v + "b is high then o is s", true, false, true, false};
    case 2: return Shape2{"if a is low" + w + "or" + v + "b is high then p is s", false, true, false, true};
    case 3: return Shape2{"if (a is low and b is low)" + w + "or" + v + "b is high then o is s and p is s", true, true, true, true};
    case 4: return Shape2{"if a is not low then o is s" + w + "and" + v + "p is very s", false, false, true, true};
    case 5: return Shape2{"if (a is low)and(b is high) then p is s", true, false, false, true};
    case 6: return Shape2{"if (a is low)or(b is high) then o is s", false, true, true, false};
    default: return Shape2{"if b is any then p is s with 0.5", false, false, false, true};
    }
}
static void outputs(Engine& e, int kind, bool agg, bool terms) {
    static const char* const nm[] = {"o", "p"};
    for (int i = 0; i < 2; ++i) {
        int k = kind == 0 ? 0 : kind == 1 ? 1 : kind == 2 ? i : kind == 3 ? (i ? 2 : 0) : 3;
        OutputVariable* o = out(nm[i], k == 0 ? (Defuzzifier*)new Centroid(2) : k == 1 ? (Defuzzifier*)new WeightedAverage : k == 2 ? fl::null : (Defuzzifier*)new LargestOfMaximum(2), agg ? new Maximum : fl::null);
        if (terms || i) o->addTerm(k == 1 ? (Term*)new Constant("s", 2) : (Term*)new Ramp("s", 0, 3));
        e.addOutputVariable(o);
    }
}
CASE(ready, "real", 8, 16, "cost=6 time=200 max_paths=6000") {
    int one = SUB % 8; bool process = SUB >= 8 || true;
    Engine e("e"); e.addInputVariable(input("a")); e.addInputVariable(input("b"));
    int kind = sx_choice("kind", 5); bool agg = sx_choice("agg", 2), c = sx_choice("conj", 2), d = sx_choice("disj", 2), i = sx_choice("impl", 2);
    outputs(e, kind, agg, true);
    Shape2 s = shape(one, true), t = shape(SUB >= 8 ? sx_choice("two", 8) : 0, false);
    RuleBlock* b = new RuleBlock("r"); e.addRuleBlock(b);
    if (c) b->setConjunction(new Minimum); if (d) b->setDisjunction(new Maximum); if (i) b->setImplication(new Minimum);
    b->addRule(Rule::parse(s.text, &e)); b->addRule(Rule::parse(t.text, &e));
    bool io = kind != 1, ip = kind == 0 || kind == 4; // integral defuzzifiers of o and p
    bool need[5] = {(s.c || t.c) && !c, (s.d || t.d) && !d, (((s.o || t.o) && io) || ((s.p || t.p) && ip)) && !i, (io || ip) && !agg, kind == 3};
    bool missing = need[0] || need[1] || need[2] || need[3] || need[4];
    S status; bool ready = e.isReady(&status);
    sx_check(ready == !missing, "ready exactly when every needed operator is there");
    sx_check(ready == status.empty() && e.isReady() == ready, "the report is empty exactly when ready");
    static const char* const word[] = {"has no conjunction operator", "has no disjunction operator", "has no implication operator", "has no aggregation operator", "has no defuzzifier"};
    bool named = true; for (int k = 0; k < 5; ++k) named = named && (status.find(word[k]) != S::npos) == need[k];
    sx_check(named, "the report names exactly what is missing");
    if (!ready || !process) return;
    int how = sx_choice("how", 4);
    scalar x = how == 1 ? fl::nan : how == 2 ? fl::inf : 0.3, y = how == 2 ? -fl::inf : -0.4;
    if (how == 3) { x = in("a"); y = in("b"); }
    set(&e, x, y); bool threw = false;
    try { e.process(); } catch (...) { threw = true; }
    sx_check(!threw, "a ready engine processes any input without error");
}
CASE(parts, "real", 1, 1, "cost=4 time=60") {
    Engine e("e"); int in2 = sx_choice("in", 3), out2 = sx_choice("out", 4), rb = sx_choice("rb", 4);
    if (in2) e.addInputVariable(input("a")); if (in2 == 2) e.addInputVariable(fl::null);
    if (out2) outputs(e, 1, false, out2 == 1); if (out2 == 3) e.addOutputVariable(fl::null);
    if (rb) { RuleBlock* b = new RuleBlock("r"); if (rb == 1) b->addRule(new Rule("if a is low then o is s")); if (rb == 3) b->addRule(fl::null); e.addRuleBlock(b); }
    S st; bool r = e.isReady(&st);
    sx_check(r == (in2 == 1 && out2 == 1 && rb == 1), "inputs, outputs with terms, rule blocks and rules are needed");
    sx_check(r == st.empty(), "the report is empty exactly when ready");
    sx_check((st.find("has no input variables") != S::npos) == (in2 == 0) && (st.find("has no output variables") != S::npos) == (out2 == 0) && (st.find("has no rule blocks") != S::npos) == (rb == 0) && (st.find("has no rules") != S::npos) == (rb == 2) && (st.find("has no terms") != S::npos) == (out2 >= 2), "the report names exactly what is missing");
    if (in2 == 2) e.inputVariables().pop_back(); if (out2 == 3) e.outputVariables().pop_back(); if (rb == 3) e.getRuleBlock(0)->rules().pop_back();
}
static Term* kindTerm(int k) { switch (k) { case 0: return new Constant("k", 1); case 1: return new Linear("l"); case 2: return new Function("f", "x"); case 3: return new Ramp("r", 0, 1); case 4: return new Sigmoid("s", 0, 1); case 5: return new Triangle("t", 0, 1, 2); default: return new Gaussian("g", 0, 1); } }
CASE(types, "real", 2, 2, "cost=6 time=120 max_paths=20000") {
    Engine e("e"); int n = SUB + 1; int impl = sx_choice("impl", 4); bool blocks = n == 2 || sx_choice("blocks", 2); // which of the two blocks have the product
    bool integral = true, weighted = true, ts = true, tsu = true, any = true; 
    for (int i = 0; i < n; ++i) {
        OutputVariable* o = new OutputVariable(i ? "p" : "o", 0, 1); e.addOutputVariable(o);
        int d = sx_choice(i ? "d1" : "d0", 5); // none, integral, weighted automatic/takagi-sugeno/tsukamoto
        o->setDefuzzifier(d == 0 ? fl::null : d == 1 ? (Defuzzifier*)new Centroid : d == 2 ? (Defuzzifier*)new WeightedAverage : d == 3 ? (Defuzzifier*)new WeightedSum("TakagiSugeno") : (Defuzzifier*)new WeightedAverage("Tsukamoto"));
        int t = sx_choice(i ? "t1" : "t0", 7), u = n == 1 ? sx_choice("u0", 7) : t; o->addTerm(kindTerm(t)); o->addTerm(kindTerm(u));
        bool st = t < 3 && u < 3, mono = t >= 3 && t < 5 && u >= 3 && u < 5;
        any = any && d; integral = integral && d == 1; weighted = weighted && d >= 2; ts = ts && (d == 2 || d == 3) && st; tsu = tsu && (d == 2 || d == 4) && mono;
    }
    if (blocks) { for (int i = 0; i < 2; ++i) { RuleBlock* b = new RuleBlock; b->setImplication(impl >> i & 1 ? (TNorm*)new AlgebraicProduct : new Minimum); e.addRuleBlock(b); } }
    Engine::Type want = integral ? (impl == 3 && blocks ? Engine::Larsen : Engine::Mamdani) : ts ? Engine::TakagiSugeno : tsu ? Engine::Tsukamoto : weighted ? Engine::InverseTsukamoto : any ? Engine::Hybrid : Engine::Unknown;
    static const char* const names[] = {"Unknown", "Mamdani", "Larsen", "Takagi-Sugeno", "Tsukamoto", "Inverse Tsukamoto", "Hybrid"};
    static const Engine::Type all[] = {Engine::Unknown, Engine::Mamdani, Engine::Larsen, Engine::TakagiSugeno, Engine::Tsukamoto, Engine::InverseTsukamoto, Engine::Hybrid};
    S name, reason; Engine::Type got = e.type(&name, &reason);
    sx_check(got == want, "type of the engine");
    for (int i = 0; i < 7; ++i) if (all[i] == got) sx_check(name == names[i] && !reason.empty(), "name of the type");
    sx_check(e.type() == got, "name and reason are optional");
    Engine none; sx_check(none.type(&name) == Engine::Unknown && name == "Unknown", "an engine without outputs has no type");
}
CASE(configure, "real", 2, 2, "cost=3 time=60") { // configuring an engine sets every block and output, with objects of their own
    Engine e("e"); e.addInputVariable(input("a")); outputs(e, 3, false, true); e.addRuleBlock(new RuleBlock("r")); e.addRuleBlock(new RuleBlock("q"));
    static const char* const c[] = {"", "Minimum", "AlgebraicProduct"}; static const char* const d[] = {"", "Maximum", "AlgebraicSum"}; static const char* const z[] = {"", "Centroid", "WeightedAverage"}; static const char* const a[] = {"", "Highest", "Proportional"};
    int ci = sx_choice("c", 3), di = sx_choice("d", 3), ii = SUB ? sx_choice("i", 3) : ci, ai = SUB ? di : sx_choice("a", 3), zi = sx_choice("z", 3), vi = sx_choice("v", 3);
    if (sx_choice("before", 2)) e.configure("EinsteinProduct", "EinsteinSum", "EinsteinProduct", "EinsteinSum", "Bisector", "Lowest"); // nothing of an earlier configuration is left
    e.configure(c[ci], d[di], c[ii], d[ai], z[zi], a[vi]);
    bool ok = true, own = true;
#define IS(p, n) (((p) ? (p)->className() : S()) == (n))
    for (int k = 0; k < 2; ++k) { RuleBlock* b = e.getRuleBlock(k); OutputVariable* o = e.getOutputVariable(k);
        ok = ok && IS(b->getConjunction(), c[ci]) && IS(b->getDisjunction(), d[di]) && IS(b->getImplication(), c[ii]) && IS(o->getAggregation(), d[ai]) && IS(o->getDefuzzifier(), z[zi]) && IS(b->getActivation(), vi ? a[vi] : "General"); }
    RuleBlock *r = e.getRuleBlock(0), *q = e.getRuleBlock(1);
    own = (!ci || r->getConjunction() != q->getConjunction()) && (!di || r->getDisjunction() != q->getDisjunction()) && (!ii || r->getImplication() != q->getImplication()) && r->getActivation() != q->getActivation() && (!zi || e.getOutputVariable(0)->getDefuzzifier() != e.getOutputVariable(1)->getDefuzzifier()) && (!ai || e.getOutputVariable(0)->getAggregation() != e.getOutputVariable(1)->getAggregation());
    sx_check(ok, "configure sets the named operators everywhere"); sx_check(own, "every block and output gets operators of its own");
}
CASE(report, "real", 1, 1, "cost=4 time=100") { // the report tells which block or output misses what, and how many rules need it
    Engine e("e"); e.addInputVariable(input("a")); e.addInputVariable(input("b")); int kind = sx_choice("kind", 3); outputs(e, kind, true, true); // both integral, both weighted, one of each
    int has = sx_choice("has", 4), r[3]; Shape2 s[3]; static const char* const nm[] = {"q", "r"}; S want;
    for (int i = 0; i < 3; ++i) { char n[8]; std::snprintf(n, sizeof n, "r%d", i); r[i] = i == 2 ? 3 : sx_choice(n, 8); s[i] = shape(r[i], false); }
    for (int k = 0; k < 2; ++k) { RuleBlock* b = new RuleBlock(nm[k]); e.addRuleBlock(b); bool full = has == 3 || has == k + 1; if (full) { b->setConjunction(new Minimum); b->setDisjunction(new Maximum); b->setImplication(new Minimum); }
        int c = 0, d = 0, m = 0; for (int i = 0; i < 3; ++i) if ((i == 1) == (k == 1)) { b->addRule(Rule::parse(s[i].text, &e)); c += s[i].c; d += s[i].d; m += (s[i].o && kind != 1) || (s[i].p && kind == 0); }
        static const char* const word[] = {"conjunction", "disjunction", "implication"}; int q[] = {c, d, m}; if (!full) for (int j = 0; j < 3; ++j) if (q[j]) { S at = "- Rule block " + Op::str(k + 1) + " <" + nm[k] + "> has "; want += at + "no " + word[j] + " operator\n" + at + Op::str(q[j]) + " rules that require " + word[j] + " operator\n"; } }
    S st; bool ready = e.isReady(&st); sx_check(ready == want.empty() && st == want, "for each block its number, name, what it misses and how many rules need that");
}
CASE(nested, "real", 1, 1, "cost=3 time=60") { // operators anywhere in the antecedent and conclusions in any place count
    static const char* const ant[] = {"a is low", "(a is low) or (b is low and b is high)", "a is low and (b is low or b is high)", "a is low and (b is low and (a is high or b is mid))", "(a is low or b is low) and a is mid", "(a is low and b is low) and a is mid", "a is low or (b is low or (a is high or b is mid))", "((a is any))"};
    static const bool c[] = {false, true, true, true, true, true, false, false}, d[] = {false, true, true, true, true, false, true, false};
    static const char* const con[] = {"o is s", "p is s", "o is s and p is s", "p is s and o is s", "p is s and p is s and o is s", "p is very s and p is s"}; static const bool o[] = {true, false, true, true, true, false}, p[] = {false, true, true, true, true, true};
    int a = sx_choice("ant", 8), k = sx_choice("con", 6), which = sx_choice("which", 4); // the first, the second, both or none of the outputs are integral
    Engine e("e"); e.addInputVariable(input("a")); e.addInputVariable(input("b")); static const char* const nm[] = {"o", "p"};
    for (int i = 0; i < 2; ++i) { OutputVariable* v = out(nm[i], which == i || which == 2 ? (Defuzzifier*)new Centroid(2) : new WeightedAverage, new Maximum); v->addTerm(new Ramp("s", 0, 3)); e.addOutputVariable(v); }
    RuleBlock* b = new RuleBlock("r"); e.addRuleBlock(b); b->addRule(Rule::parse(S("if ") + ant[a] + " then " + con[k], &e)); if (sx_choice("more", 2)) b->addRule(Rule::parse("if a is low then p is s", &e)); bool more = b->numberOfRules() == 2;
    bool io = which == 0 || which == 2, ip = which == 1 || which == 2; int n = ((o[k] && io) || (p[k] && ip)) + (more && ip);
    S want, at = "- Rule block 1 <r> has "; if (c[a]) want += at + "no conjunction operator\n" + at + "1 rules that require conjunction operator\n"; if (d[a]) want += at + "no disjunction operator\n" + at + "1 rules that require disjunction operator\n"; if (n) want += at + "no implication operator\n" + at + Op::str(n) + " rules that require implication operator\n";
    S st; bool ready = e.isReady(&st); sx_check(st == want && ready == want.empty(), "each operator that a nested antecedent or a later conclusion needs is reported");
}
