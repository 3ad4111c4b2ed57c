// FuzzyLite Language: exporting an engine and importing the text gives an equal engine.
// BOUNDS: every term class with any valid parameters in [-8,8] and height, any ranges, default values (NaN and infinite ones too) and thresholds; every norm, defuzzifier (4 resolutions, 3 types) and activation method of the factories and none; every flag; 0-3 variables, terms, blocks and rules; names and descriptions with any 1-2 printable bytes; 6 layouts of the text (separators, indentation, comments, blank lines)
// BOUNDS: numbers are equal within the 3 printed decimals
#include "compare.h"
using namespace fl;
using namespace cmp;
static Engine* again(const Engine* e) { return FllImporter().fromString(FllExporter().toString(e)); }
static InputVariable* in(const char* n) { InputVariable* v = new InputVariable(n, 0, 1); v->addTerm(new Ramp("low", 1, 0)); v->addTerm(new Ramp("high", 0, 1)); return v; }
static OutputVariable* out(const char* n) { OutputVariable* v = new OutputVariable(n, 0, 1); v->addTerm(new Constant("k", 1)); v->addTerm(new Constant("l", 2)); return v; }
CASE(terms, "real", 21, 21, "cost=3 time=60") {
    Engine e("e", "any terms"); InputVariable* v = new InputVariable("v", -1, 1); e.addInputVariable(v); OutputVariable* o = new OutputVariable("o", -1, 1); e.addOutputVariable(o);
    Term* t;
    if (SUB < NSHAPES) { Shape s = symShape(SUB, "p", -8, 8, true); if (sx_choice("unit", 2)) s.h = 1.0; crisp(s.h, 1); t = build(s, "t", 0); }
    else if (SUB == 17) { Discrete* d = new Discrete("t"); char nm[8]; for (int i = 0, n = sx_choice("n", 4); i < n; ++i) { std::snprintf(nm, sizeof nm, "x%d", i); scalar x = sx_real(nm, -8, 8); std::snprintf(nm, sizeof nm, "y%d", i); d->xy().push_back(Discrete::Pair(x, sx_real(nm, 0, 1))); } if (sx_choice("unit", 2)) d->setHeight(sx_real("h", 0.1, 0.9)); t = d; }
    else if (SUB == 18) t = new Constant("t", sx_real("c", -8, 8));
    else if (SUB == 19) { std::vector<scalar> c; char nm[8]; for (int i = 0, n = sx_choice("n", 4); i < n; ++i) { std::snprintf(nm, sizeof nm, "c%d", i); c.push_back(sx_real(nm, -8, 8)); } t = new Linear("t", c, &e); }
    else { static const char* const f[] = {"x", "2 * v + x", "sin ( v ) ^ 2 - 1", "~v"}; v->setName("w"); InputVariable* k = new InputVariable("v", -1, 1); e.addInputVariable(k); std::swap(e.inputVariables()[0], e.inputVariables()[1]); t = Function::create("t", f[sx_choice("f", 4)], &e); }
    bool first = sx_choice("first", 2) == 0; if (!first) v->addTerm(new Triangle("other", 0, 0.5, 1));
    v->addTerm(t); o->addTerm(t->clone()); o->addTerm(new Constant("last", 1));
    std::unique_ptr<Engine> f(again(&e));
    sx_check(eqEngine(f.get(), &e), "terms come back with class, name, parameters and height");
    // the terms read refer to the engine read
    if (SUB == 19) { const Linear* l = dynamic_cast<const Linear*>(f->getInputVariable(0)->getTerm("t")); sx_check(l->getEngine() == f.get(), "a linear term refers to the engine read"); }
    if (SUB == 20) { f->getInputVariable(0)->setValue(0.5); e.getInputVariable(0)->setValue(0.5); sx_check(same(f->getInputVariable(1)->getTerm("t")->membership(0.25), t->membership(0.25)), "a function term refers to the engine read"); }
}
CASE(variables, "real", 4, 4, "cost=3 time=60") {
    Engine e("e"); scalar a = sx_real("min", -100, 100), b = sx_real("max", -100, 100), d = sx_real("default", -100, 100); int odd = sx_choice("odd", 4);
    if (odd == 1) { a = -fl::inf; b = fl::inf; d = fl::nan; } else if (odd == 2) { a = fl::nan; d = -fl::inf; } else if (odd == 3) d = fl::nan;
    bool en = sx_choice("enabled", 2), lr = sx_choice("lock_range", 2), lp = sx_choice("lock_previous", 2);
    int n = SUB; for (int i = 0; i < n; ++i) { InputVariable* v = in(i == 0 ? "a" : i == 1 ? "b" : "c"); v->setRange(a, b); v->setEnabled(i == 1 ? !en : en); v->setLockValueInRange(i == 1 ? !lr : lr); if (i == 1) v->setDescription("the second"); e.addInputVariable(v); }
    for (int i = 0; i < 3 - n; ++i) { OutputVariable* v = out(i == 0 ? "o" : i == 1 ? "p" : "q"); v->setRange(i ? b : a, i ? a : b); v->setEnabled(i == 1 ? !en : en); v->setLockValueInRange(i == 1 ? !lr : lr); v->setLockPreviousValue(i == 1 ? !lp : lp); v->setDefaultValue(d); if (i == 1) v->setDescription("another, with: a colon"); e.addOutputVariable(v); }
    std::unique_ptr<Engine> f(again(&e)); sx_check(eqEngine(f.get(), &e), "variables come back with range, flags and default value");
}
CASE(operators, "real", 5, 5, "cost=3 time=60") {
    Engine e("e"); e.addInputVariable(in("a")); OutputVariable* o = out("o"); e.addOutputVariable(o); RuleBlock* b = new RuleBlock("b"); e.addRuleBlock(b);
    FactoryManager* m = FactoryManager::instance();
    if (SUB == 0) { std::vector<S> n = m->tnorm()->available(); int i = sx_choice("c", (int)n.size()), j = sx_choice("i", (int)n.size()); b->setConjunction(m->tnorm()->constructObject(n[i])); b->setImplication(m->tnorm()->constructObject(n[j])); }
    if (SUB == 1) { std::vector<S> n = m->snorm()->available(); int i = sx_choice("d", (int)n.size()), j = sx_choice("a", (int)n.size()); b->setDisjunction(m->snorm()->constructObject(n[i])); o->setAggregation(m->snorm()->constructObject(n[j])); }
    if (SUB == 2) { std::vector<S> n = m->defuzzifier()->available(); o->setDefuzzifier(m->defuzzifier()->constructObject(n[sx_choice("f", (int)n.size())])); int k = sx_choice("k", 4); static const int res[] = {1000, 1, 20, 999999};
        if (IntegralDefuzzifier* d = dynamic_cast<IntegralDefuzzifier*>(o->getDefuzzifier())) d->setResolution(res[k]); if (WeightedDefuzzifier* d = dynamic_cast<WeightedDefuzzifier*>(o->getDefuzzifier())) d->setType(k == 1 ? WeightedDefuzzifier::TakagiSugeno : k == 2 ? WeightedDefuzzifier::Tsukamoto : WeightedDefuzzifier::Automatic); }
    if (SUB == 3) { int k = sx_choice("method", 7); scalar t = sx_real("t", -1, 2); int n = k < 4 ? sx_choice("n", 4) : 1; Activation* a = k == 0 ? (Activation*)new First(n, t) : k == 1 ? (Activation*)new Last(n, t) : k == 2 ? (Activation*)new Highest(n) : k == 3 ? (Activation*)new Lowest(n) : k == 4 ? (Activation*)new Threshold(Threshold::Comparison(sx_choice("cmp", 6)), t) : k == 5 ? (Activation*)new Proportional : (Activation*)new General; b->setActivation(a); }
    if (SUB == 4) { b->setActivation(new General); b->setEnabled(sx_choice("on", 2)); if (sx_choice("described", 2)) b->setDescription("rules"); if (sx_choice("more", 2)) { RuleBlock* c = new RuleBlock; c->setActivation(new Proportional); c->setConjunction(new Minimum); e.addRuleBlock(c); } }
    std::unique_ptr<Engine> f(again(&e)); if (SUB < 3) sx_check(eqAct(f->getRuleBlock(0)->getActivation(), &*std::unique_ptr<Activation>(new General)), "General activation where there is none"); b = e.getRuleBlock(0); if (!b->getActivation()) b->setActivation(new General);
    sx_check(eqEngine(f.get(), &e), "operators come back with kind and parameters");
}
CASE(rules, "real", 4, 4, "cost=3 time=60") { // SUB = number of rules of the first block
    static const char* const t[] = {"if a is low then o is k", "if a is not low and (b is very high or a is any) then o is somewhat k and p is l with 0.25", "if o is k or b is low then p is l with 0.5", "if a is missing then o is k", "not a rule: at all"};
    Engine e("e"); e.addInputVariable(in("a")); e.addInputVariable(in("b")); e.addOutputVariable(out("o")); e.addOutputVariable(out("p"));
    for (int k = 0; k < 2; ++k) { RuleBlock* b = new RuleBlock(k ? "" : "first block"); b->setActivation(new General); b->setConjunction(new Minimum); e.addRuleBlock(b);
        for (int i = 0; i < (k ? 1 : SUB); ++i) { char nm[8]; std::snprintf(nm, sizeof nm, "r%d%d", k, i); Rule* r = new Rule; r->setText(t[sx_choice(nm, 5)]); try { r->load(&e); } catch (fl::Exception&) { } b->addRule(r); } }
    std::unique_ptr<Engine> f(again(&e)); sx_check(eqEngine(f.get(), &e), "rules come back in order, with text and weight, loaded exactly if they are good");
    sx_check(FllExporter().toString(f.get()) == FllExporter().toString(&e), "exporting again gives the same text");
}
// names and descriptions of any printable bytes: names come back as valid names, descriptions (without comment marks and outer spaces) as they are
CASE(names, "real", 4, 5, "cost=3 time=120 max_paths=8000") {
    int n = SUB % 2 + 1; S w; char nm[8]; for (int i = 0; i < n; ++i) { std::snprintf(nm, sizeof nm, "c%d", i); int b = sx_byte(nm); sx_assume((b > 32) & (b < 127) & (b != '#')); w += (char)b; }
    Engine e("e"); InputVariable* v = in("a"); OutputVariable* o = out("o"); RuleBlock* b = new RuleBlock("b"); b->setActivation(new General); e.addInputVariable(v); e.addOutputVariable(o); e.addRuleBlock(b); std::unique_ptr<Engine> f;
    if (SUB < 2) { v->setName(w); o->setName("o" + w); v->getTerm(0)->setName(w); o->getTerm(0)->setName(w + "t"); f.reset(again(&e));
        sx_check(f->getInputVariable(0)->getName() == Op::validName(w) && f->getOutputVariable(0)->getName() == Op::validName("o" + w) && f->getInputVariable(0)->getTerm(0)->getName() == Op::validName(w) && f->getOutputVariable(0)->getTerm(0)->getName() == Op::validName(w + "t"), "names come back as valid names"); }
    else { S d = w + " 1: " + w; e.setName(w); e.setDescription(d); v->setDescription(w); o->setDescription(d); b->setName(w); b->setDescription(d); f.reset(again(&e)); sx_check(eqEngine(f.get(), &e), "descriptions and names of engines and blocks come back"); }
}
// the same engine in other layouts of the text
CASE(layouts, "real", 6, 6, "cost=2 time=60") {
    static const char* const t[] = {"if a is low then o is k", "if a is not high or a is low then o is l with 0.5"};
    Engine e("e", "layouts"); e.addInputVariable(in("a")); OutputVariable* o = out("o"); o->setDefuzzifier(new Centroid(10)); o->setAggregation(new Maximum); o->setDefaultValue(sx_real("d", -5, 5)); e.addOutputVariable(o); RuleBlock* b = new RuleBlock("b"); b->setActivation(new Threshold(">", sx_real("t", 0, 1))); b->setImplication(new Minimum); e.addRuleBlock(b); for (int i = 0; i < 2; ++i) b->addRule(Rule::parse(t[i], &e));
    std::unique_ptr<Engine> f;
    if (SUB == 0) f.reset(FllImporter("; ").fromString(FllExporter("", "; ").toString(&e)));
    if (SUB == 1) f.reset(FllImporter().fromString(FllExporter("\t    ", "\n\n  \n").toString(&e)));
    if (SUB == 2) f.reset(FllImporter("|").fromString(FllExporter(" ", "|").toString(&e)));
    if (SUB >= 3) { std::vector<S> l = Op::split(FllExporter().toString(&e), "\n"); int at = sx_choice("at", (int)l.size()); if (SUB == 3) l[at] += "   # comment: with a colon"; if (SUB == 4) l.insert(l.begin() + at, sx_choice("what", 2) ? "# only a comment" : " \t "); if (SUB == 5) { size_t c = l[at].find(':'); l[at] = "  " + l[at].substr(0, c) + " :   " + l[at].substr(c + 1) + "  \r"; } f.reset(FllImporter().fromString(Op::join(l, "\n"))); }
    sx_check(eqEngine(f.get(), &e), "separators, indentation, comments and blank lines do not matter");
}
CASE(parts, "real", 1, 1, "cost=2 time=60") { // exporting a part gives its part of the text; lists are parts in order; an exporter and importer for clones and files names
    Engine e("e"); e.addInputVariable(in("a")); e.addInputVariable(in("b")); e.addOutputVariable(out("o")); RuleBlock* b = new RuleBlock("b"); b->setActivation(new General); b->addRule(Rule::parse("if a is low then o is k", &e)); e.addRuleBlock(b); e.getInputVariable(0)->setMaximum(sx_real("m", 1, 5));
    FllExporter x; std::unique_ptr<FllExporter> y(x.clone()); std::unique_ptr<FllImporter> z(FllImporter().clone()); S all = x.toString(&e);
    sx_check(all == "Engine: e\n" + x.toString(e.inputVariables()) + "\n" + x.toString(e.outputVariables()) + "\n" + x.toString(e.ruleBlocks()), "an engine is its parts in order");
    sx_check(x.toString(e.inputVariables()) == x.toString(e.getInputVariable(0)) + "\n" + x.toString(e.getInputVariable(1)) && y->toString(&e) == all && e.toString() == all, "a list is its parts in order, clones and the engine itself write the same");
    std::unique_ptr<Engine> f(z->fromString(all)); sx_check(eqEngine(f.get(), &e), "clones of the importer read the same");
}
// a function term uses variables that come later in the text, or its own
CASE(forward, "real", 3, 3, "cost=1 time=60") {
    Engine e("e"); e.addInputVariable(in("a")); e.addInputVariable(in("b")); e.addOutputVariable(out("o")); e.addOutputVariable(out("p"));
    if (SUB == 0) e.getInputVariable(0)->addTerm(Function::create("t", "2 * b + x", &e)); else e.getOutputVariable(0)->addTerm(Function::create("t", SUB == 1 ? "p * a" : "o + a", &e));
    bool ok = true; std::unique_ptr<Engine> f; try { f.reset(again(&e)); } catch (fl::Exception&) { ok = false; }
    sx_check(ok && eqEngine(f.get(), &e), "a function term that uses its own or a later variable can be imported");
}
