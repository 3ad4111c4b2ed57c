// Fuzzy Inference System (FIS) files: exporting and importing keeps what the format expresses; parameters are in the order of that format; text is refused or understood.
// BOUNDS: every term class with any parameters in [-8,8]; every operator and defuzzifier of the factories and none; any range; 0-3 variables per side and 0-3 terms; rules over 3 inputs and 2 outputs with every hedge the format has, negated or not, any weight in [0,1], either connector, any order and nesting; 1-2 rule blocks; names with any 1-2 printable bytes; 7 layouts
// BOUNDS: reading: a text of 35 lines with any line deleted, duplicated, swapped or cut; any 1-2 bytes (thorough: 3 printable ones) inserted at 10 places; 60 texts with one defect each, refused with an exception of the library
// BOUNDS: numbers are equal within the 3 printed decimals; the format has no place for heights, descriptions, flags, default values, resolutions and unloaded rules, nor for rules naming a variable twice or other combinations of hedges
#include <map>
#include "compare.h"
using namespace fl;
using namespace cmp;
static Engine* again(const Engine* e) { return FisImporter().fromString(FisExporter().toString(e)); }
static InputVariable* in(const char* n) { InputVariable* v = new InputVariable(n, 0, 1); v->addTerm(new Ramp("low", 1, 0)); v->addTerm(new Ramp("high", 0, 1)); return v; }
static OutputVariable* out(const char* n) { OutputVariable* v = new OutputVariable(n, 0, 1); v->addTerm(new Constant("k", 1)); v->addTerm(new Constant("l", 2)); return v; }
static bool sameTerm(const Term* a, const Term* b) {
    const Function* f = dynamic_cast<const Function*>(b); if (!f) return eqTerm(a, b);
    const Function* g = dynamic_cast<const Function*>(a); return g && g->getName() == f->getName() && g->isLoaded() && f->root()->toPostfix() == g->root()->toPostfix();
}
static bool sameVars(const Engine* a, const Engine* b) {
    if (a->numberOfInputVariables() != b->numberOfInputVariables() || a->numberOfOutputVariables() != b->numberOfOutputVariables()) return false;
    bool ok = true; std::vector<Variable*> x = a->variables(), y = b->variables();
    for (size_t i = 0; i < y.size(); ++i) { if (x[i]->getName() != y[i]->getName() || x[i]->numberOfTerms() != y[i]->numberOfTerms()) return false; ok = ok & eq(x[i]->getMinimum(), y[i]->getMinimum()) & eq(x[i]->getMaximum(), y[i]->getMaximum()); for (size_t j = 0; j < y[i]->numberOfTerms(); ++j) ok = ok & sameTerm(x[i]->getTerm(j), y[i]->getTerm(j)); }
    return ok;
}
// the propositions of an expression: variable -> hedges and term; and its connectors
static void collect(const Expression* x, std::map<S, S>& m, S& connectors) {
    if (const Operator* o = dynamic_cast<const Operator*>(x)) { connectors += o->name + " "; collect(o->left, m, connectors); collect(o->right, m, connectors); }
    else if (const Proposition* p = dynamic_cast<const Proposition*>(x)) { S s; for (size_t i = 0; i < p->hedges.size(); ++i) s += p->hedges[i]->name() + " "; m[p->variable->getName()] += s + (p->term ? p->term->getName() : ""); }
}
static bool sameRule(const Rule* a, const Rule* b) {
    if (!a->isLoaded() || !b->isLoaded()) return false;
    std::map<S, S> p, q, u, v; S c, d; collect(a->getAntecedent()->getExpression(), p, c); collect(b->getAntecedent()->getExpression(), q, d);
    for (size_t i = 0; i < a->getConsequent()->conclusions().size(); ++i) collect(a->getConsequent()->conclusions()[i], u, c);
    for (size_t i = 0; i < b->getConsequent()->conclusions().size(); ++i) collect(b->getConsequent()->conclusions()[i], v, d);
    return (p == q && u == v && c == d) & eq(a->getWeight(), b->getWeight());
}
CASE(terms, "real", 21, 21, "cost=3 time=60") {
    Engine e("e"); InputVariable* v = new InputVariable("v", -1, 1); OutputVariable* o = new OutputVariable("o", -1, 1); e.addInputVariable(v); e.addOutputVariable(o); Term* t;
    if (SUB < NSHAPES) { Shape s = symShape(SUB, "p", -8, 8, true, false); t = build(s, "t", 0); }
    else if (SUB == 17) { Discrete* d = new Discrete("t"); char nm[8]; for (int i = 0, n = 1 + sx_choice("n", 3); i < n; ++i) { std::snprintf(nm, sizeof nm, "x%d", i); scalar x = sx_real(nm, -8, 8); std::snprintf(nm, sizeof nm, "y%d", i); d->xy().push_back(Discrete::Pair(x, sx_real(nm, 0, 1))); } t = d; }
    else if (SUB == 18) t = new Constant("t", sx_real("c", -8, 8));
    else if (SUB == 19) { std::vector<scalar> c; char nm[8]; for (int i = 0, n = 1 + sx_choice("n", 3); i < n; ++i) { std::snprintf(nm, sizeof nm, "c%d", i); c.push_back(sx_real(nm, -8, 8)); } t = new Linear("t", c, &e); }
    else { static const char* const f[] = {"x", "2*v + x", "sin(v)^2 - 1", "~v", "x and v or !x", "max(v, min(x, 2))"}; v->setName("w"); InputVariable* k = new InputVariable("v", -1, 1); e.addInputVariable(k); std::swap(e.inputVariables()[0], e.inputVariables()[1]); t = Function::create("t", f[sx_choice("f", 6)], &e); }
    bool first = sx_choice("first", 2) == 0; if (!first) v->addTerm(new Triangle("other", 0, 0.5, 1));
    v->addTerm(t); o->addTerm(t->clone()); o->addTerm(new Constant("last", 1));
    std::unique_ptr<Engine> f; try { f.reset(again(&e)); } catch (fl::Exception&) { }
    sx_check(f && sameVars(f.get(), &e), "terms come back with class, name and parameters");
    if (f && SUB == 19) sx_check(dynamic_cast<const Linear*>(f->getInputVariable(0)->getTerm("t"))->getEngine() == f.get(), "a linear term refers to the engine read");
    if (f && SUB == 20) { f->getInputVariable(0)->setValue(0.5); e.getInputVariable(0)->setValue(0.5); sx_check(same(f->getInputVariable(1)->getTerm("t")->membership(0.25), t->membership(0.25)), "a function term refers to the engine read"); }
}
// the order of parameters of the format
CASE(order, "real", 19, 19, "cost=2 time=60") {
    // class of the format, kind, and for each parameter of ours its place in the file
    static const struct { const char* mf; int kind, n, at[4]; } T[] = {{"trimf", TRI, 3, {0, 1, 2}}, {"trapmf", TRA, 4, {0, 1, 2, 3}}, {"rampmf", RAMP, 2, {0, 1}}, {"rectmf", RECT, 2, {0, 1}}, {"binarymf", BIN, 2, {0, 1}}, {"concavemf", CONC, 2, {0, 1}}, {"smf", SSH, 2, {0, 1}}, {"zmf", ZSH, 2, {0, 1}}, {"pimf", PISH, 4, {0, 1, 2, 3}},
        {"sigmf", SIG, 2, {1, 0}}, {"dsigmf", SIGD, 4, {1, 0, 2, 3}}, {"psigmf", SIGP, 4, {1, 0, 2, 3}}, {"gbellmf", BELL, 3, {2, 0, 1}}, {"cosinemf", COSI, 2, {0, 1}}, {"gaussmf", GAUS, 2, {1, 0}}, {"gauss2mf", GAUP, 4, {1, 0, 3, 2}}, {"spikemf", SPIK, 2, {0, 1}}};
    scalar v[4]; char nm[8]; S num; for (int i = 0; i < 4; ++i) { std::snprintf(nm, sizeof nm, "v%d", i); v[i] = sx_real(nm, -8, 8); }
    int n = SUB < 17 ? T[SUB].n : SUB == 17 ? 1 : 3; for (int i = 0; i < n; ++i) num += (i ? " " : "") + Op::str(v[i]);
    S mf = SUB < 17 ? T[SUB].mf : SUB == 17 ? "constant" : "linear"; bool quoted = sx_choice("quoted", 2);
    S text = "[System]\nName='e'\n[Input1]\nName='a'\nRange=[0 1]\nNumMFs=1\nMF1=" + (quoted ? S("'t':'" + mf + "',[" + num + "]") : S("t : " + mf + " , [" + num + "]")) + "\n";
    std::unique_ptr<Engine> e(FisImporter().fromString(text)); sx_check(e->numberOfInputVariables() == 1 && e->getInputVariable(0)->numberOfTerms() == 1, "the term is read"); const Term* t = e->getInputVariable(0)->getTerm(0);
    if (SUB < 17) { scalar p[5]; bool ok = read(t, T[SUB].kind, p); for (int i = 0; ok && i < n; ++i) ok = ok & eq(p[i], v[T[SUB].at[i]]); sx_check(ok, "parameters are read in the order of the format"); }
    else if (SUB == 17) sx_check(eq(dynamic_cast<const Constant*>(t)->getValue(), v[0]), "a constant is read");
    else { const Linear* l = dynamic_cast<const Linear*>(t); sx_check(l && l->coefficients().size() == 3 && eq(l->coefficients()[0], v[0]) & eq(l->coefficients()[1], v[1]) & eq(l->coefficients()[2], v[2]), "coefficients are read in order"); }
    // and written so
    S w = FisExporter().toString(t); std::vector<S> parts = Op::split(w.substr(w.find('[') + 1, w.size() - w.find('[') - 2), " "); bool ok = (int)parts.size() == n && w.find(mf) != S::npos; for (int i = 0; ok && i < n; ++i) ok = ok & eq(Op::toScalar(parts[i]), v[i]); sx_check(ok, "and written in that order");
}
CASE(variables, "real", 4, 4, "cost=3 time=60") {
    Engine e("e"); scalar a = sx_real("min", -100, 100), b = sx_real("max", -100, 100); int odd = sx_choice("odd", 3); if (odd == 1) { a = -fl::inf; b = fl::inf; } else if (odd == 2) a = fl::nan;
    static const char* const n[] = {"a", "b", "c", "o", "p", "q"};
    for (int i = 0; i < SUB; ++i) { InputVariable* v = i == 1 ? new InputVariable(n[i]) : in(n[i]); v->setRange(i ? a : b, i ? b : a); e.addInputVariable(v); }
    for (int i = 0; i < 3 - SUB; ++i) { OutputVariable* v = i == 1 ? new OutputVariable(n[3 + i]) : out(n[3 + i]); v->setRange(a, b); e.addOutputVariable(v); }
    vary(e); std::unique_ptr<Engine> f(again(&e)); sx_check(sameVars(f.get(), &e) && f->getName() == "e", "variables come back in order with name, range and terms");
}
CASE(operators, "real", 4, 4, "cost=3 time=60") {
    Engine e("e"); e.addInputVariable(in("a")); e.addOutputVariable(out("o")); e.addOutputVariable(out("p")); e.addRuleBlock(new RuleBlock("b")); e.addRuleBlock(new RuleBlock("c")); FactoryManager* m = FactoryManager::instance();
    int at = sx_choice("at", 2); RuleBlock* b = e.getRuleBlock(at); OutputVariable* o = e.getOutputVariable(at); S c = "Minimum", i = "Minimum", d = "Maximum", g = "Maximum", z; // what is written if there is none
    if (SUB == 0) { std::vector<S> n = m->tnorm()->available(); S x = n[sx_choice("c", (int)n.size())], y = n[sx_choice("i", (int)n.size())]; b->setConjunction(m->tnorm()->constructObject(x)); b->setImplication(m->tnorm()->constructObject(y)); if (x != "") c = x; if (y != "") i = y; if (!at) e.getRuleBlock(1)->setConjunction(new EinsteinProduct); if (!at && x == "") c = "EinsteinProduct"; }
    if (SUB == 1) { std::vector<S> n = m->snorm()->available(); S x = n[sx_choice("d", (int)n.size())], y = n[sx_choice("a", (int)n.size())]; b->setDisjunction(m->snorm()->constructObject(x)); o->setAggregation(m->snorm()->constructObject(y)); if (x != "") d = x; if (y != "") g = y; if (!at) e.getOutputVariable(1)->setAggregation(new EinsteinSum); if (!at && y == "") g = "EinsteinSum"; }
    if (SUB == 2) { std::vector<S> n = m->defuzzifier()->available(); z = n[sx_choice("f", (int)n.size())]; o->setDefuzzifier(m->defuzzifier()->constructObject(z)); if (!at && z != "") e.getOutputVariable(1)->setDefuzzifier(new WeightedSum); }
    if (SUB == 3) { static const char* const w[][2] = {{"min", "Minimum"}, {"prod", "AlgebraicProduct"}, {"HamacherProduct", "HamacherProduct"}}; static const char* const s[][2] = {{"max", "Maximum"}, {"probor", "AlgebraicSum"}, {"sum", "UnboundedSum"}}; static const char* const f[][2] = {{"centroid", "Centroid"}, {"bisector", "Bisector"}, {"lom", "LargestOfMaximum"}, {"mom", "MeanOfMaximum"}, {"som", "SmallestOfMaximum"}, {"wtaver", "WeightedAverage"}, {"wtsum", "WeightedSum"}};
        int x = sx_choice("x", 3), y = sx_choice("y", 3), u = sx_choice("u", 7); std::unique_ptr<Engine> r(FisImporter().fromString(S("[System]\nName='e'\nType='any'\nAndMethod='") + w[x][0] + "'\nOrMethod='" + s[y][0] + "'\nImpMethod='" + w[2 - x][0] + "'\nAggMethod='" + s[2 - y][0] + "'\nDefuzzMethod='" + f[u][0] + "'\n[Input1]\nName='a'\nRange=[0 1]\n[Output1]\nName='o'\nRange=[0 1]\n[Output2]\nName='p'\nRange=[0 1]\n[Rules]\n"));
        bool ok = true; for (int k = 0; k < 2; ++k) { OutputVariable* q = r->getOutputVariable(k); ok = ok && q->getAggregation()->className() == s[2 - y][1] && q->getDefuzzifier()->className() == f[u][1]; }
        RuleBlock* q = r->getRuleBlock(0); sx_check(ok && q->getConjunction()->className() == w[x][1] && q->getDisjunction()->className() == s[y][1] && q->getImplication()->className() == w[2 - x][1], "operators are read by the names of the format"); return; }
    vary(e); std::unique_ptr<Engine> f(again(&e)); RuleBlock* q = f->getRuleBlock(0); bool ok = f->numberOfRuleBlocks() == 1 && q->getConjunction()->className() == c && q->getDisjunction()->className() == d && q->getImplication()->className() == i && q->getActivation()->className() == "General";
    for (int k = 0; k < 2; ++k) { OutputVariable* u = f->getOutputVariable(k); ok = ok && u->getAggregation()->className() == g && (z == "" ? !u->getDefuzzifier() : u->getDefuzzifier() && u->getDefuzzifier()->className() == z); }
    sx_check(ok, "the first operator of each kind comes back, for every part");
}
static const char* const hedged[] = {"low", "high", "not low", "any", "extremely high", "seldom low", "somewhat high", "very low", "very very high", "not any", "not extremely low", "not seldom high", "not somewhat low", "not very high", "not very very low"};
static Engine* ruled() { Engine* e = new Engine("e"); e->addInputVariable(in("a")); e->addInputVariable(in("b")); e->addInputVariable(in("c")); e->addOutputVariable(out("o")); e->addOutputVariable(out("p")); RuleBlock* b = new RuleBlock("b"); b->setConjunction(new Minimum); b->setDisjunction(new Maximum); e->addRuleBlock(b); return e; }
CASE(rules, "real", 15, 15, "cost=3 time=60") {
    std::unique_ptr<Engine> e(ruled()); S x = S("a is ") + hedged[SUB], y = sx_choice("b", 2) ? "b is not high" : "b is very low", z = "c is high", op = sx_choice("or", 2) ? " or " : " and ", t; int how = sx_choice("how", 8);
    t = how == 0 ? x : how == 1 ? S("c is ") + hedged[SUB] : how == 2 ? x + op + y : how == 3 ? y + op + x : how == 4 ? x + op + y + op + z : how == 5 ? z + op + "(" + x + op + y + ")" : how == 6 ? "(" + z + op + x + ")" : S("b is ") + hedged[SUB];
    int c = sx_choice("then", 4); S q = c == 0 ? "o is k" : c == 1 ? "p is l" : c == 2 ? "o is l and p is k" : S("p is very k and o is not l");
    Rule* r = Rule::parse("if " + t + " then " + q, e.get()); r->setWeight(sx_real("w", 0, 1)); e->getRuleBlock(0)->addRule(r); e->getRuleBlock(0)->addRule(Rule::parse("if c is low then o is k", e.get()));
    if (how == 2) vary(*e); std::unique_ptr<Engine> f(again(e.get())); RuleBlock* b = f->getRuleBlock(0); sx_check(b->numberOfRules() == 2 && sameRule(b->getRule(0), r) & sameRule(b->getRule(1), e->getRuleBlock(0)->getRule(1)), "rules come back with their propositions, connector and weight");
}
// negations that cancel leave the meaning: only 'not' repeated, the degree of the rule read is that of the rule written
CASE(negated, "real", 1, 1, "cost=2 time=60") {
    static const char* const h[] = {"", "not ", "not not ", "not not not ", "not not not not "}; static const char* const g[] = {"", "very ", "extremely ", "somewhat ", "seldom "}; std::unique_ptr<Engine> e(ruled()); int a = sx_choice("a", 5), b = sx_choice("b", 5), k = b == 0 ? sx_choice("g", 5) : 0; scalar xa = sx_real("xa", 0, 1), xb = sx_real("xb", 0, 1);
    e->getRuleBlock(0)->addRule(Rule::parse(S("if a is ") + h[a] + "low and b is " + h[b] + "high then o is " + h[b] + "k", e.get())); e->getRuleBlock(0)->addRule(Rule::parse(S("if a is ") + g[k] + h[a & 1] + "low then p is l", e.get()));
    if (k && (a & 1)) { delete e->getRuleBlock(0)->removeRule(1); } // the format has the negation first
    std::unique_ptr<Engine> f(again(e.get())); bool ok = f->getRuleBlock(0)->numberOfRules() == e->getRuleBlock(0)->numberOfRules(); Minimum m; Maximum o;
    for (int i = 0; i < 2; ++i) { Engine* q = i ? f.get() : e.get(); q->getInputVariable("a")->setValue(xa); q->getInputVariable("b")->setValue(xb); }
    sx_check(ok, "every rule comes back"); if (!ok) return; const Antecedent *u = e->getRuleBlock(0)->getRule(0)->getAntecedent(), *v = f->getRuleBlock(0)->getRule(0)->getAntecedent();
    sx_check(near(u->activationDegree(&m, &o), v->activationDegree(&m, &o), 1e-9), "a rule with repeated negations comes back with the same degree");
    std::vector<Hedge*>& hh = f->getRuleBlock(0)->getRule(0)->getConsequent()->conclusions()[0]->hedges; sx_check(hh.size() % 2 == (size_t)(b % 2), "a conclusion with repeated negations comes back negated or not");
    if (e->getRuleBlock(0)->numberOfRules() == 2 && k == 1) sx_check(near(e->getRuleBlock(0)->getRule(1)->getAntecedent()->activationDegree(&m, &o), f->getRuleBlock(0)->getRule(1)->getAntecedent()->activationDegree(&m, &o), 1e-9), "a hedged rule comes back with the same degree");
}
// rules by the codes of the format
CASE(codes, "real", 1, 1, "cost=3 time=60") {
    static const char* const code[][2] = {{"0", ""}, {"1", "low"}, {"2", "high"}, {"-2", "not high"}, {"1.05", "somewhat low"}, {"2.2", "very high"}, {"-1.3", "not extremely low"}, {"1.4", "very very low"}, {"2.01", "seldom high"}, {"0.99", "any"}, {"-0.99", "not any"}};
    std::unique_ptr<Engine> g(ruled()); int i = sx_choice("i", 11), j = sx_choice("j", 11), c = 1 + sx_choice("c", 2); scalar w = sx_real("w", 0, 1); bool spaced = sx_choice("spaced", 2);
    S base = FisExporter().exportSystem(g.get()) + "\n" + FisExporter().exportInputs(g.get()) + FisExporter().exportOutputs(g.get());
    S line = S(code[i][0]) + " " + code[j][0] + " 1, 0 2 (" + Op::str(w) + ") : " + (c == 1 ? "1" : "2"); if (spaced) line = Op::findReplace(line, " ", "  ");
    std::unique_ptr<Engine> f(FisImporter().fromString(base + "[Rules]\n" + line + "\n")); S op = c == 1 ? " and " : " or ", t; if (i) t += S("a is ") + code[i][1]; if (j) t += (t.empty() ? S() : op) + "b is " + code[j][1]; t += (t.empty() ? S() : op) + "c is low";
    std::unique_ptr<Rule> r(Rule::parse("if " + t + " then p is l", g.get())); r->setWeight(w); sx_check(f->getRuleBlock(0)->numberOfRules() == 1 && sameRule(f->getRuleBlock(0)->getRule(0), r.get()), "codes are read as terms, hedges, negation, connector and weight");
}
CASE(blocks, "real", 1, 1, "cost=2 time=60") { // rule blocks become one, in order; rules that are not loaded are left out; mixed connectors are refused
    std::unique_ptr<Engine> e(ruled()); e->addInputVariable(in("d")); e->addRuleBlock(new RuleBlock("second")); std::vector<Rule*> kept; bool mixed = false;
    static const char* const t[] = {"if a is low then o is k", "if b is high then p is l", "if missing is low then o is k", "if a is low and b is high and c is low and d is high then o is k", /* mixed: */ "if a is low and b is high or c is low then o is k", "if a is low and b is high and c is low or d is high then o is k", "if d is low or (a is low and b is high) or c is low then o is l", "if (d is low or a is low) and (b is high or c is low) then o is l", "if a is low or b is high or c is low and d is low then p is l"};
    for (int i = 0; i < 3; ++i) { char nm[8]; std::snprintf(nm, sizeof nm, "r%d", i); int k = sx_choice(nm, 9); Rule* r = new Rule(t[k]); try { r->load(e.get()); } catch (fl::Exception&) { } e->getRuleBlock(i / 2)->addRule(r); if (k != 2) kept.push_back(r); mixed = mixed || k > 3; }
    if (kept.size() == 1) vary(*e); std::unique_ptr<Engine> f; bool refused = false; try { f.reset(again(e.get())); } catch (fl::Exception&) { refused = true; } sx_check(refused == mixed, "rules with both connectors are refused, others written"); if (mixed || refused) return;
    bool ok = f->numberOfRuleBlocks() == 1 && f->getRuleBlock(0)->numberOfRules() == kept.size(); for (size_t i = 0; ok && i < kept.size(); ++i) ok = ok & sameRule(f->getRuleBlock(0)->getRule(i), kept[i]); sx_check(ok, "the loaded rules of all blocks come back in order");
}
CASE(names, "real", 4, 4, "cost=3 time=120 max_paths=8000") {
    int n = SUB % 2 + 1; S w; char nm[8]; for (int i = 0; i < n; ++i) { std::snprintf(nm, sizeof nm, "c%d", i); int b = sx_byte(nm); sx_assume((b > 32) & (b < 127)); if (SUB >= 2) sx_assume((b != '#') & (b != '\'') & (b != '=') & (b != '/')); w += (char)b; }
    std::unique_ptr<Engine> e(ruled());
    if (SUB < 2) { e->getInputVariable(0)->setName(w); e->getInputVariable(0)->getTerm(0)->setName(w + "t"); e->getOutputVariable(1)->setName(w + "o"); e->getOutputVariable(1)->getTerm(1)->setName(w); std::unique_ptr<Engine> f(again(e.get()));
        sx_check(f->getInputVariable(0)->getName() == Op::validName(w) && f->getInputVariable(0)->getTerm(0)->getName() == Op::validName(w + "t") && f->getOutputVariable(1)->getName() == Op::validName(w + "o") && f->getOutputVariable(1)->getTerm(1)->getName() == Op::validName(w), "names come back as valid names"); }
    else { S d = w + " x " + w; e->setName(d); std::unique_ptr<Engine> f(again(e.get())); sx_check(f->getName() == d, "the name of the engine comes back"); }
}
static const char* const text[] = {"[System]", "Name='sample'", "Type='mamdani'", "Version=7.0", "NumInputs=2", "NumOutputs=1", "NumRules=2", "AndMethod='min'", "OrMethod='max'", "ImpMethod='prod'", "AggMethod='max'", "DefuzzMethod='centroid'", "[Input1]", "Name='a'", "Enabled=1", "Range=[0 1]", "NumMFs=2", "MF1='low':'rampmf',[1 0]", "MF2='high':'trimf',[0 1 2]",
    "[Input2]", "Name='b'", "Range=[-inf inf]", "MF1='d':'discretemf',[0 0 1 1]", "[Output1]", "Name='o'", "Range=[0 1]", "Default=nan", "LockPrevious=1", "LockRange=0", "MF1='k':'constant',[1]", "MF2='l':'linear',[1 2 3]", "MF3='f':'function',[a*2]", "[Rules]", "1 1, 1 (1) : 1", "-2 0, 2.2 (0.5) : 2"};
static const int N = 35;
static std::vector<S> lines() { return std::vector<S>(text, text + N); }
static bool sameLoaded(const Engine* a, const Engine* b) { size_t i = 0, m = a->numberOfRuleBlocks() ? a->getRuleBlock(0)->numberOfRules() : 0; bool ok = true; for (size_t k = 0; k < b->numberOfRuleBlocks(); ++k) for (size_t j = 0; j < b->getRuleBlock(k)->numberOfRules(); ++j) { const Rule* r = b->getRuleBlock(k)->getRule(j); if (!r->isLoaded()) continue; if (i >= m) return false; ok = ok & sameRule(a->getRuleBlock(0)->getRule(i++), r); } return ok & (i == m); }
static int judge(const S& t, std::unique_ptr<Engine>* keep = 0, bool plain = true, bool own = false) {
    std::unique_ptr<Engine> e, f; int how = 0; try { e.reset(FisImporter().fromString(t)); } catch (fl::Exception&) { how = 1; } catch (std::exception&) { how = own ? 3 : 1; } catch (...) { how = 2; }
    sx_check(how < 2, "a text is refused with an error of the standard kind, or imported"); if (how) return 0;
    for (size_t i = 0; i < e->variables().size(); ++i) for (size_t j = 0; j < e->variables()[i]->numberOfTerms(); ++j) if (const Discrete* d = dynamic_cast<const Discrete*>(e->variables()[i]->getTerm(j))) if (d->xy().empty()) return 1; // has no points to write
    try { f.reset(again(e.get())); } catch (std::exception&) { } sx_check(!!f, "an engine that was imported can be exported and imported");
    if (f && plain) sx_check(f->numberOfInputVariables() == e->numberOfInputVariables() && f->numberOfOutputVariables() == e->numberOfOutputVariables() && sameLoaded(f.get(), e.get()), "and has the same variables and rules");
    if (keep) *keep = std::move(e);
    return 1;
}
CASE(layouts, "real", 7, 7, "cost=3 time=60") {
    std::vector<S> l = lines(); int at = sx_choice("at", N); std::unique_ptr<Engine> e(FisImporter().fromString(Op::join(l, "\n"))), f; size_t c = l[at].find('=');
    if (SUB == 0) l[at] += "   # a comment: x=1"; if (SUB == 1) l[at] += " // a comment, [x]"; if (SUB == 2) l.insert(l.begin() + at, sx_choice("what", 2) ? "% a comment" : "  \t "); if (SUB == 3) l[at] = "  " + l[at] + " \t\r"; if (SUB == 4 && c != S::npos) l[at] = l[at].substr(0, c) + "  =  " + l[at].substr(c + 1); if (SUB == 5) l[at] = Op::findReplace(l[at], "'", ""); if (SUB == 6) l[at] = Op::findReplace(l[at], " ", "   ");
    f.reset(FisImporter().fromString(Op::join(l, "\n"))); bool ok = f->getName() == "sample" && sameVars(f.get(), e.get()) & sameLoaded(f.get(), e.get()); const OutputVariable *o = f->getOutputVariable(0), *q = e->getOutputVariable(0); const RuleBlock *b = f->getRuleBlock(0), *d = e->getRuleBlock(0);
    sx_check(ok && eqOut(o, q) | (o->numberOfTerms() == 3) && eqNorm(b->getConjunction(), d->getConjunction()) && eqNorm(b->getDisjunction(), d->getDisjunction()) && eqNorm(b->getImplication(), d->getImplication()) && eqNorm(o->getAggregation(), q->getAggregation()) && eqDef(o->getDefuzzifier(), q->getDefuzzifier()) && o->isLockPreviousValue() && !o->isLockValueInRange() && f->getInputVariable(0)->isEnabled(), "comments, blank lines, white space and quotes do not matter");
}
CASE(keys, "real", 1, 1, "cost=2 time=60") {
    std::vector<S> l = lines(); int en = sx_choice("enabled", 2), oe = sx_choice("output", 2), lp = sx_choice("previous", 2), lr = sx_choice("range", 2); scalar d = sx_real("default", -100, 100), a = sx_real("min", -100, 100), b = sx_real("max", -100, 100);
    l[14] = en ? "Enabled=1" : "Enabled=0"; l[25] = "Range=[" + Op::str(a) + " " + Op::str(b) + "]\nEnabled=" + (oe ? "1.0" : "0"); l[26] = "Default=" + Op::str(d); l[27] = lp ? "LockPrevious=1" : "LockPrevious=0"; l[28] = lr ? "LockRange=1" : "LockRange=0";
    std::unique_ptr<Engine> e(FisImporter().fromString(Op::join(l, "\n"))); const OutputVariable* o = e->getOutputVariable(0);
    sx_check((e->getInputVariable(0)->isEnabled() == (en == 1)) & (o->isEnabled() == (oe == 1)) & (o->isLockPreviousValue() == (lp == 1)) & (o->isLockValueInRange() == (lr == 1)) & eq(o->getDefaultValue(), d) & eq(o->getMinimum(), a) & eq(o->getMaximum(), b) & (e->getInputVariable(1)->getMaximum() == fl::inf), "flags, default value, locks and ranges are read");
}
CASE(edited, "real", 4, 4, "cost=4 time=120") {
    std::vector<S> l = lines(); int at = sx_choice("at", N);
    if (SUB == 0) { l.erase(l.begin() + at); judge(Op::join(l, "\n")); }
    if (SUB == 1) { l.insert(l.begin() + at, l[at]); judge(Op::join(l, "\n")); }
    if (SUB == 2) { if (at + 1 == N) at = 0; std::swap(l[at], l[at + 1]); judge(Op::join(l, "\n")); }
    if (SUB == 3) { l.resize(at + 1); S t = Op::join(l, "\n"); int cut = sx_choice("cut", 16); if (cut >= (int)l[at].size()) cut = 0; judge(t.substr(0, t.size() - cut)); }
}
CASE(bytes, "real", 20, 30, "cost=8 time=150 max_paths=20000") {
    static const char* const at[][2] = {{"Name='", "s'"}, {"AndMethod='", "min'"}, {"Range=[0", " 1]"}, {"Range=[", "0 1]"}, {"MF1='low", "':'rampmf',[1 0]"}, {"MF1='low':'rampmf',[1 ", "0]"}, {"MF1='low':'rampmf", "',[1 0]"}, {"1 1, 1 (", "1) : 1"}, {"1 ", "1, 1 (1) : 1"}, {"1 1, 1 (1)", " : 1"}};
    int k = SUB % 10, n = SUB / 10 + 1; S w; char nm[8]; for (int i = 0; i < n; ++i) { std::snprintf(nm, sizeof nm, "c%d", i); int b = sx_byte(nm); if (SUB >= 20) sx_assume((b >= 32) & (b < 127)); w += (char)b; }
    S s = at[k][0] + w + at[k][1], t = "[System]\n" + (k < 2 ? s + "\n" : S("Name='e'\n")) + "[Input1]\nName='a'\n" + (k >= 2 && k < 4 ? s : S("Range=[0 1]")) + "\n" + (k >= 4 && k < 7 ? s : S("MF1='low':'rampmf',[1 0]")) + "\n[Input2]\nName='b'\nMF1='low':'rampmf',[1 0]\n[Output1]\nName='o'\nMF1='k':'constant',[1]\n[Rules]\n" + (k >= 7 ? s : S("1 0, 1 (1) : 1")) + "\n"; judge(t, 0, k >= 7);
}
CASE(defects, "real", 1, 1, "cost=1 time=60") {
    static const char* const d[][2] = {{"0", "System"}, {"0", "Name='x'"}, {"1", "Title='sample'"}, {"7", "And='min'"}, {"7", "AndMethod='max'"}, {"7", "AndMethod='minimum'"}, {"8", "OrMethod='min'"}, {"9", "ImpMethod='max'"}, {"10", "AggMethod='min'"}, {"11", "DefuzzMethod='middle'"}, {"12", "[Variable1]"}, {"13", "Name"}, {"13", "Label='a'"}, {"13", "Name='a'='b'"}, {"14", "Enabled=yes"}, {"14", "Default=0"}, {"14", "LockPrevious=1"}, {"15", "Range=[0]"}, {"15", "Range=[0 1 2]"}, {"15", "Range=0 1"}, {"15", "Range=[0 1"}, {"15", "Range=0 1]"}, {"15", "Range=[0 x]"}, {"15", "Range=[x 1]"}, {"15", "Range=[]"}, {"15", "Range="},
        {"17", "MF1='low'"}, {"17", "MF1='low':'rampmf'"}, {"17", "MF1='low','rampmf',[1 0]"}, {"17", "MF1='low':'rampmf',[1]"}, {"17", "MF1='low':'rampmf',[1 x]"}, {"17", "MF1='low':'rampmf',[1, 0]"}, {"17", "MF1='low':'slopemf',[1 0]"}, {"17", "MF1='low':'rampmf':[1 0]"}, {"18", "MF2='high':'trimf',[0 1]"}, {"17", "MF1='low':'gaussmf',[1]"}, {"17", "MF1='low':'gbellmf',[1 2]"}, {"17", "MF1='low':'gauss2mf',[1 2 3]"}, {"17", "MF1='low':'dsigmf',[1 2 3]"}, {"17", "MF1='low':'sigmf',[]"}, {"26", "Default=zero"}, {"27", "LockPrevious=true"}, {"28", "LockRange="}, {"29", "MF1='k':'constant',[x]"}, {"31", "MF3='f':'function',[a*]"}, {"31", "MF3='f':'function',[z*2]"},
        {"33", "1 1 1 (1) : 1"}, {"33", "1, 1 (1) : 1"}, {"33", "1 1 1, 1 (1) : 1"}, {"33", "1 1, 1 1 (1) : 1"}, {"33", "1 1, (1) : 1"}, {"33", "1 1, 1 (1)"}, {"33", "1 1, 1 (1) 1"}, {"33", "1 1, 1 (x) : 1"}, {"33", "1 1, 1 () : 1"}, {"33", "1 1, 1 (1) : 3"}, {"33", "1 1, 1 (1) : and"}, {"33", "3 1, 1 (1) : 1"}, {"33", "1 2, 1 (1) : 1"}, {"33", "1 1, 4 (1) : 1"}, {"33", "1.5 1, 1 (1) : 1"}, {"33", "1 x, 1 (1) : 1"}, {"33", "1 nan, 1 (1) : 1"}, {"33", "1 inf, 1 (1) : 1"}, {"33", "1 1e30, 1 (1) : 1"}, {"33", "1 1, -4 (1) : 1"}, {"33", "1 1 : 1, 1 (1)"}};
    const int n = sizeof d / sizeof *d; int i = sx_choice("i", n); std::vector<S> l = lines(); l[std::atoi(d[i][0])] = d[i][1]; sx_check(judge(Op::join(l, "\n"), 0, true, true) == 0, "a text with a defect is refused");
}
// rules that cannot be loaded are kept, and do not stop the import
CASE(lenient, "real", 1, 1, "cost=1 time=60") {
    static const char* const r[] = {"0 0, 1 (1) : 1", "1 0, 0 (1) : 1", "0 0, 0 (1) : 2"}; std::vector<S> l = lines(); l[33] = r[sx_choice("i", 3)]; std::unique_ptr<Engine> e; int ok = judge(Op::join(l, "\n"), &e);
    sx_check(ok == 1 && e->getRuleBlock(0)->numberOfRules() == 2 && !e->getRuleBlock(0)->getRule(0)->isLoaded() && e->getRuleBlock(0)->getRule(1)->isLoaded(), "a rule without antecedent or consequent is not loaded, others are");
}
