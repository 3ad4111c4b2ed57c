// Ownership: every object the library makes or is given is released exactly once, also when a text is refused or a run fails; what is handed back belongs to the caller.
// BOUNDS: a rule of 20 words and a formula of 15 with any one edit out of 8 words, antecedents and consequents with any two edits (quick: the second in the first half); FLL, FIS and FCL texts of 6 engines with any one line lost, doubled or given one of 8 values; every class of the factories with 7 texts of parameters; engines of 6 kinds in histories of up to 4 operations; histories of 3 operations on variables, rules, blocks and terms; 12 ways in which a run fails
// ASSUME: memory of the standard library that is kept on purpose (locale caches) is allocated by a first concrete run
#include "memory.h"
#include "compare.h"
#include "engines.h"
#include "files.h"
#include <iostream>
#include <sstream>
using namespace fl;
typedef fl::fuzzylite G;
namespace {
struct Nowhere : std::streambuf { int overflow(int c) { return c == EOF ? 0 : c; } };
struct Quiet { Nowhere no; std::streambuf* old; Quiet() : old(std::cout.rdbuf(&no)) { } ~Quiet() { std::cout.rdbuf(old); } };
void first() { // whatever is made once per program
    Quiet q; FactoryManager::instance(); std::unique_ptr<Engine> e(sx::build(sx::MAMDANI)); sx::set(e.get(), 0.25, -0.5); e->process(); S t = e->toString(); e.reset(FllImporter().fromString(t)); t = FisExporter().toString(e.get()); t = FclExporter().toString(e.get()); try { Op::toScalar("none"); } catch (fl::Exception&) { } std::ostringstream s; s << 1.5 << 3 << true << std::scientific << 2.5; std::istringstream i("1 2.5"); int n; double d; i >> n >> d; try { e->getInputVariable("none"); } catch (fl::Exception& x) { Exception::catchException(x); }
}
// choices are made once, so that what is done can be done again: what is kept once per program is no loss
struct Made { char name[24]; int value; }; Made made[32]; int nmade = 0;
int pick(const char* name, int n) { for (int i = 0; i < nmade; ++i) if (!std::strcmp(made[i].name, name)) return made[i].value; std::strncpy(made[nmade].name, name, 23); int v = sx_choice(name, n); made[nmade++].value = v; return v; }
#define sx_choice pick
template <class F> void balanced(F f, const char* why) { long n = mem::live, b = mem::bad; f(); if (mem::live != n) { n = mem::live; f(); } sx_check(mem::live == n, why); sx_check(mem::bad == b, "nothing is released twice"); }
template <class F> bool tried(F f) { try { f(); return true; } catch (std::exception&) { return false; } }
std::vector<S> cut(const char* t) { return Op::split(t, " "); }
// one edit of a list of words: replaced, inserted, removed, or the rest lost
void edit(std::vector<S>& t, const char* what, const char* const* w, int n, int lo, int hi) { S a(what); int at = lo + sx_choice((a + "_at").c_str(), hi - lo), how = sx_choice((a + "_how").c_str(), 4); if (how == 2) t.erase(t.begin() + at); else if (how == 3) t.resize(at); else { S v = w[sx_choice((a + "_word").c_str(), n)]; if (how) t.insert(t.begin() + at, v); else t[at] = v; } }
const char* const ruleText = "if ( a is not low or b is very any ) and a is very high then o is s and o is not l with 0.5";
const char* const ruleWords[] = {"a", "is", "low", "not", "and", "then", "(", "zz"};
const char* const formula = "max ( a , 2 ) + sin ( x ) * ~ b ^ 3"; const char* const formulaWords[] = {"+", "(", ")", ",", "sin", "max", "zz", "3"};
}
CASE(rules, "real", 6, 6, "cost=3 time=90") { // texts of rules with an edit at any place; SUB: which part of the rule
    first(); std::unique_ptr<Engine> e(sx::build(sx::MAMDANI)); balanced([&] {
        std::vector<S> t = Op::split(ruleText, " "); int n = (int)t.size(), lo = n * SUB / 6, hi = n * (SUB + 1) / 6; edit(t, "e", ruleWords, 8, lo, hi); S text = Op::join(t, " "); Rule r; if (sx_choice("loaded", 2)) r.load(ruleText, e.get()); bool ok = tried([&] { r.load(text, e.get()); }); sx_check(ok == r.isLoaded(), "it is loaded if it is understood");
        bool made = tried([&] { std::unique_ptr<Rule> p(Rule::parse(text, e.get())); Rule c(*p); c.load(e.get()); c = r; }); sx_check(made == ok, "either way"); tried([&] { r.load(e.get()); }); r.unload(); }, "a rule holds nothing after it is gone");
}
CASE(twice, "real", 4, 8, "cost=4 time=90 max_paths=6000") { // two edits of an antecedent or consequent
    first(); std::unique_ptr<Engine> e(sx::build(sx::MAMDANI)); balanced([&] {
        static const char* const aw[] = {"a", "and", "zz"}; static const char* const cw[] = {"o", "and", "zz"}; bool con = SUB % 2; std::vector<S> t = Op::split(con ? "o is s and o is not l" : "a is low and b is not low or a is any", " "); int n = (int)t.size(); edit(t, "e", con ? cw : aw, 3, 0, n); n = (int)t.size(); if (n) edit(t, "f", con ? cw : aw, 3, n * (SUB / 2) / 4, std::max(n * (SUB / 2 + 1) / 4, n * (SUB / 2) / 4 + 1)); S text = Op::join(t, " ");
        if (con) { Consequent c; tried([&] { c.load(text, e.get()); }); tried([&] { c.load(text, e.get()); }); sx_check(c.conclusions().size() <= 3, "conclusions are those of the text"); } else { Antecedent a; bool x = tried([&] { a.load(text, e.get()); }), y = tried([&] { a.load(text, e.get()); }); sx_check(x == y && x == a.isLoaded(), "the same text is understood or not"); } }, "antecedents and consequents hold nothing after they are gone");
}
CASE(formulas, "real", 6, 6, "cost=3 time=90") {
    first(); std::unique_ptr<Engine> e(sx::build(sx::MAMDANI)); balanced([&] {
        std::vector<S> t = Op::split(formula, " "); int n = (int)t.size(); edit(t, "e", formulaWords, 8, n * SUB / 6, n * (SUB + 1) / 6); S text = Op::join(t, " "); Function f("f"); f.setEngine(e.get()); if (sx_choice("before", 2)) f.load("a * 2"); bool ok = tried([&] { f.load(text); }), made = tried([&] { std::unique_ptr<Function> g(Function::create("g", text, e.get())); Function h(*g); h = f; }); sx_check(ok == made, "a formula is understood or not");
        if (ok) { tried([&] { Function g(f); g = g; f = g; f.load("b"); g.unload(); }); } tried([&] { std::unique_ptr<Function::Node> r(f.parse(text)); std::unique_ptr<Function::Node> c(r->clone()); *c = *r; }); }, "formulas hold nothing after they are gone");
}
namespace {
const char* const values[] = {"", "q", "1 q", "t Triangle 1", "t Function a +", "0 1", "Highest q", "WeightedAverage q"};
void lines(const S& text, int at, int how, S& out) { std::vector<S> l = Op::split(text, "\n", false); out.clear(); for (int i = 0; i < (int)l.size(); ++i) { S x = l[i]; if (i == at) { if (how == 0) continue; if (how == 1) x += "\n" + x; else { size_t c = x.find_first_of(":="); if (c == S::npos) c = x.size(); else ++c; x = x.substr(0, c) + " " + values[how - 2]; } } out += x; if (i + 1 < (int)l.size()) out += "\n"; } }
}
CASE(fll, "real", 6, 12, "cost=3 time=90") { // SUB: kind of engine
    first(); Quiet q; std::unique_ptr<Engine> e(sx::build(SUB % 6)); S t = FllExporter().toString(e.get()), u; int n = (int)Op::split(t, "\n").size(), at = sx_choice("at", n), how = sx_choice("how", 10); lines(t, at, how, u); balanced([&] { tried([&] { std::unique_ptr<Engine> f(FllImporter().fromString(u)); if (SUB < 6) { Engine g(*f); } else f->process(); }); }, "an importer holds nothing of a text, refused or not"); sx_check(e->toString() == t, "the engine is as it was");
}
CASE(fis, "real", 6, 6, "cost=3 time=90") {
    first(); Quiet q; std::unique_ptr<Engine> e(sx::build(SUB)); S t, u; if (!tried([&] { t = FisExporter().toString(e.get()); })) { sx_check(t.empty(), "not expressible in FIS"); return; } int n = (int)Op::split(t, "\n").size(), at = sx_choice("at", n), how = sx_choice("how", 10); lines(t, at, how, u); balanced([&] { tried([&] { std::unique_ptr<Engine> f(FisImporter().fromString(u)); Engine g(*f); }); }, "an importer holds nothing of a text, refused or not"); sx_check(mem::live > 0, "the engine is still there");
}
CASE(fcl, "real", 6, 6, "cost=3 time=90") {
    first(); Quiet q; std::unique_ptr<Engine> e(sx::build(SUB)); S t, u; if (!tried([&] { t = FclExporter().toString(e.get()); })) { sx_check(t.empty(), "not expressible in FCL"); return; } int n = (int)Op::split(t, "\n").size(), at = sx_choice("at", n), how = sx_choice("how", 10); lines(t, at, how, u); balanced([&] { tried([&] { std::unique_ptr<Engine> f(FclImporter().fromString(u)); Engine g(*f); }); }, "an importer holds nothing of a text, refused or not"); sx_check(mem::live > 0, "the engine is still there");
}
CASE(parameters, "real", 6, 6, "cost=3 time=90") { // every class of a factory, configured well or not; SUB: factory
    first(); balanced([&] { FactoryManager* m = FactoryManager::instance(); static const char* const p[] = {"", "1", "1 2", "1 2 3", "1 2 3 4 0.5", "q", "1 q"}; S t = p[sx_choice("parameters", 7)];
        if (SUB == 0) { std::vector<S> n = m->term()->available(); std::unique_ptr<Term> x(m->term()->constructObject(n[sx_choice("class", (int)n.size())])); if (x.get()) { tried([&] { x->configure(t); }); std::unique_ptr<Term> y(x->clone()); tried([&] { y->configure("1 2 3 4"); }); tried([&] { y->membership(0.5); }); tried([&] { y->tsukamoto(0.5); }); S z = y->toString(); } }
        else if (SUB == 1) { std::vector<S> n = m->activation()->available(); std::unique_ptr<Activation> x(m->activation()->constructObject(n[sx_choice("class", (int)n.size())])); if (x.get()) { tried([&] { x->configure(t); }); std::unique_ptr<Activation> y(x->clone()); S z = y->parameters(); } }
        else if (SUB == 2) { std::vector<S> n = m->defuzzifier()->available(); S c = n[sx_choice("class", (int)n.size())]; std::unique_ptr<Defuzzifier> x(m->defuzzifier()->constructObject(c)); if (x.get()) std::unique_ptr<Defuzzifier>(x->clone()); tried([&] { x.reset(m->defuzzifier()->constructDefuzzifier(c, 10, WeightedDefuzzifier::Tsukamoto)); }); tried([&] { std::unique_ptr<Engine> y(FllImporter().fromString("Engine: e\nOutputVariable: o\n  defuzzifier: " + c + " " + t + "\n")); y->getOutputVariable(0)->setDefuzzifier(new Centroid(4)); }); }
        else if (SUB == 3) { std::vector<S> n = m->tnorm()->available(), s = m->snorm()->available(); std::unique_ptr<TNorm> x(m->tnorm()->constructObject(n[sx_choice("class", (int)n.size())])); std::unique_ptr<SNorm> y(m->snorm()->constructObject(s[sx_choice("other", (int)s.size())])); if (x.get()) { std::unique_ptr<TNorm> z(x->clone()); S w = z->className(); } if (y.get()) std::unique_ptr<SNorm>(y->clone()); }
        else if (SUB == 4) { std::vector<S> n = m->hedge()->available(); std::unique_ptr<Hedge> x(m->hedge()->constructObject(n[sx_choice("class", (int)n.size())])); if (x.get()) std::unique_ptr<Hedge>(x->clone()); HedgeFunction h("x + " + S("1")); HedgeFunction* g = h.clone(); delete g; tried([&] { HedgeFunction f("x + " + t); S z = f.getFormula(); }); }
        else { tried([&] { TNormFunction f("a * b"); std::unique_ptr<TNorm> g(f.clone()); g->compute(0.25, 0.5); }); tried([&] { SNormFunction f("a + b * " + t); std::unique_ptr<SNorm> g(f.clone()); g->compute(0.25, 0.5); }); }
        sx_check(mem::bad == 0, "while in use"); }, "objects of the factories hold nothing after they are gone");
}

CASE(configured, "real", 6, 6, "cost=3 time=60") { // operators of an engine by name, one or two of them unknown; SUB: kind of engine
    first(); std::unique_ptr<Engine> e(sx::build(SUB)); S t[6] = {"Minimum", "Maximum", "AlgebraicProduct", "AlgebraicSum", "Centroid", "Proportional"}, u[6]; e->configure(t[0], t[1], t[2], t[3], t[4], t[5]); S before = e->toString();
    for (int i = 0; i < 6; ++i) u[i] = t[i]; int i = sx_choice("first", 7), j = sx_choice("second", 7); if (i < 6) u[i] = "zz"; if (j < 6) u[j] = ""; bool none = j == 6, bad = i < 6 && !(i == j); bool ok = true; balanced([&] { ok = tried([&] { e->configure(u[0], u[1], u[2], u[3], u[4], u[5]); }); if (ok && !none) e->configure(t[0], t[1], t[2], t[3], t[4], t[5]); }, "names that are refused leave nothing behind"); sx_check(ok == !bad, "unknown names are refused"); sx_check(e->toString() == before, "the engine is as it was");
}
namespace {
// one step in the life of an engine
void step(std::unique_ptr<Engine>& e, int k, scalar x, scalar y) { switch (k) {
    case 0: sx::set(e.get(), x, y); e->process(); break; case 1: e.reset(new Engine(*e)); break; case 2: { std::unique_ptr<Engine> f(sx::build(sx::CHAINED)); *f = *e; e.swap(f); break; } case 3: *e = *e; break; case 4: e->restart(); break; case 5: { S t = FllExporter().toString(e.get()); e.reset(FllImporter().fromString(t)); break; } case 6: e.reset(e->clone()); sx::set(e.get(), y, x); e->process(); break;
    case 7: { for (size_t i = 0; i < e->numberOfRuleBlocks(); ++i) { e->getRuleBlock(i)->reloadRules(e.get()); RuleBlock c(*e->getRuleBlock(i)); c = *e->getRuleBlock(i); c.loadRules(e.get()); } break; } case 8: { std::unique_ptr<InputVariable> a(e->removeInputVariable(0)); InputVariable c(*a); c = *e->getInputVariable(0); e->insertInputVariable(a.release(), 0); break; } default: { std::unique_ptr<OutputVariable> o(e->removeOutputVariable(0)); OutputVariable c(*o); c.fuzzyOutput()->clear(); c.clear(); e->addOutputVariable(o.release()); e->insertOutputVariable(e->removeOutputVariable(e->numberOfOutputVariables() - 1), 0); } } }
}
CASE(lives, "real", 6, 6, "cost=4 time=120") { // histories of an engine; SUB: kind
    first(); int a = sx_choice("s0", 10), b = sx_choice("s1", 10); static const scalar xs[] = {-0.75, 0.125, 1}; scalar x = xs[sx_choice("x", 3)]; balanced([&] { std::unique_ptr<Engine> e(sx::build(SUB)), f(sx::build(SUB)); step(e, a, x, 0.25); step(e, b, 0.25, x); step(e, a, x, -0.5); e->restart(); for (int i = 0; i < 2; ++i) { sx::set(e.get(), x, 0.5); e->process(); sx::set(f.get(), x, 0.5); f->process(); } sx_check(sx::sameOutputs(e.get(), f.get()), "an engine with a past computes what a new one does"); }, "an engine holds nothing after it is gone");
}
CASE(anyway, "real", 6, 6, "cost=4 time=90") { // any values; SUB: kind
    first(); scalar x = sx_real("x", -1, 1), y = sx_real("y", -1, 1); balanced([&] { std::unique_ptr<Engine> e(sx::build(SUB)); sx::set(e.get(), x, y); e->process(); std::unique_ptr<Engine> f(e->clone()); e.reset(); sx::set(f.get(), y, x); f->process(); for (size_t i = 0; i < f->numberOfOutputVariables(); ++i) { OutputVariable* o = f->getOutputVariable(i); std::vector<Activated> v = o->fuzzyOutput()->groupedTerms(); Aggregated g = o->fuzzyOutput()->grouped(); std::vector<Activated> m = o->fuzzyOutput()->maximallyActivatedTerms(); sx_check(m.size() <= o->fuzzyOutput()->numberOfTerms(), "activations are those of the output"); } }, "an engine holds nothing after it is gone");
}
CASE(pieces, "real", 8, 8, "cost=3 time=60") { // parts that are given, replaced, copied and handed back; SUB: which
    first(); std::unique_ptr<Engine> e(sx::build(sx::MAMDANI)); balanced([&] { int a = sx_choice("a", 4), b = sx_choice("b", 4), c = sx_choice("c", 2); switch (SUB) {
        case 0: { InputVariable v("v", 0, 1); v.addTerm(new Triangle("t", 0, 0.5, 1)); v.insertTerm(new Ramp("r", 0, 1), a % 2); v.addTerm(Discrete::create("d", 4, 0.0, 0.0, 1.0, 1.0)); InputVariable w(v); if (c) w = v; std::unique_ptr<Term> t(v.removeTerm(a % 3)); sx_check(v.numberOfTerms() == 2 && w.numberOfTerms() == 3, "what is handed back is no longer there"); if (b == 0) v.addTerm(t.release()); else if (b == 1) w.insertTerm(t.release(), 1); v = w; w = w; if (b == 3) { std::unique_ptr<Variable> x(w.clone()); x->sort(); } break; }
        case 1: { OutputVariable o("o", 0, 1); o.addTerm(new Constant("k", 1)); o.addTerm(new Ramp("r", 0, 1)); for (int i = 0; i < 2; ++i) { int k = i ? b : a; o.setDefuzzifier(k == 0 ? (Defuzzifier*)new Centroid(3) : k == 1 ? (Defuzzifier*)new WeightedSum : k == 2 ? fl::null : (Defuzzifier*)new Bisector); o.setAggregation(k == 0 ? (SNorm*)new Maximum : k == 1 ? (SNorm*)new AlgebraicSum : fl::null); OutputVariable p(o); if (c) p = o; p.fuzzyOutput()->addTerm(p.getTerm(0), 0.5, fl::null); tried([&] { p.defuzzify(); }); } o = o; break; }
        case 2: { Rule r("if a is low then o is s"), s("if b is not high then o is l with 0.5"); r.load(e.get()); if (a & 1) s.load(e.get()); if (a & 2) r = s; Rule t(s); if (b == 1) t.setAntecedent(new Antecedent); else if (b == 2) t.setConsequent(new Consequent); else if (b == 3) { Antecedent* p = new Antecedent; p->load("a is low and b is low", e.get()); r.setAntecedent(p); p->setExpression(new Proposition); } t = r; if (c) r = r; tried([&] { t.load(e.get()); }); std::unique_ptr<Rule> u(t.clone()); r.unload(); break; }
        case 3: { RuleBlock k("k"); for (int i = 0; i < 2; ++i) { int n = i ? b : a; k.setConjunction(n == 0 ? fl::null : n == 1 ? (TNorm*)new Minimum : (TNorm*)new TNormFunction("a * b")); k.setDisjunction(n == 0 ? fl::null : (SNorm*)new Maximum); k.setImplication(n == 2 ? fl::null : (TNorm*)new Minimum); k.setActivation(n == 0 ? (Activation*)new General : n == 1 ? (Activation*)new Highest(2) : n == 2 ? fl::null : (Activation*)new Threshold); k.addRule(Rule::parse("if a is low then o is s", e.get())); k.insertRule(new Rule("if b is low then o is s"), 0); } RuleBlock j(k); if (c) { j = k; k = k; } std::unique_ptr<Rule> r(k.removeRule(a)); if (b & 1) j.addRule(r.release()); j.loadRules(e.get()); j.unloadRules(); sx_check(k.numberOfRules() == 3, "what is handed back is no longer there"); break; }
        case 4: { Aggregated g("g", 0, 1, a & 1 ? (SNorm*)new Maximum : fl::null); std::unique_ptr<Term> t(new Triangle("t", 0, 0.5, 1)); Minimum m; g.addTerm(t.get(), 0.5, &m); g.addTerm(Activated(t.get(), 0.25, &m)); Aggregated h(g); if (a & 2) { h.addTerm(t.get(), 1, fl::null); h = g; h = h; } if (b == 0) h.setAggregation(new AlgebraicSum); else if (b == 1) h.setAggregation(fl::null); else if (b == 2) h.removeTerm(0); else h.clear(); Activated x(t.get(), 0.5, &m), y; y = x; x = x; std::unique_ptr<Activated> z(y.clone()); std::unique_ptr<Aggregated> w(c ? h.clone() : g.clone()); tried([&] { w->membership(0.5); }); tried([&] { S q = w->toString() + z->toString(); }); break; }
        case 5: { std::unique_ptr<Term> t; static const char* const n[] = {"Function", "Linear", "Discrete", "Constant"}; t.reset(FactoryManager::instance()->term()->constructObject(n[a])); t->updateReference(e.get()); static const char* const q[] = {"1 2 3 4", "a", "1 2 3", ""}; tried([&] { t->configure(q[b]); }); std::unique_ptr<Term> u(t->clone()); tried([&] { u->configure(q[(b + 1) % 4]); }); if (c) { if (Function* f = dynamic_cast<Function*>(t.get())) *f = *dynamic_cast<Function*>(u.get()); if (Linear* f = dynamic_cast<Linear*>(t.get())) *f = *dynamic_cast<Linear*>(u.get()); if (Discrete* f = dynamic_cast<Discrete*>(t.get())) *f = *dynamic_cast<Discrete*>(u.get()); } tried([&] { t->membership(0.5); }); if (a == 2) { tried([&] { std::unique_ptr<Discrete> d(Discrete::discretize(e->getInputVariable(0)->getTerm(b % 3), -1, 1, 3)); }); } break; }
        case 6: { std::unique_ptr<Engine> f(sx::build(a)); InputVariable* v = new InputVariable("v"); f->addInputVariable(v); f->insertInputVariable(new InputVariable("w"), b % 2); std::unique_ptr<InputVariable> old(f->setInputVariable(new InputVariable("n"), b)); sx_check(old.get() && f->numberOfInputVariables() == 4, "what is replaced is handed back"); tried([&] { old.reset(f->removeInputVariable(c ? "a" : "b")); }); OutputVariable* o = new OutputVariable("z"); f->insertOutputVariable(o, 0); std::unique_ptr<OutputVariable> p(f->setOutputVariable(new OutputVariable("y"), 0)); sx_check(p.get() == o, "what is replaced is handed back"); p.reset(f->removeOutputVariable("y")); RuleBlock* r = new RuleBlock("x"); f->insertRuleBlock(r, 0); std::unique_ptr<RuleBlock> s(f->setRuleBlock(new RuleBlock("u"), 0)); s.reset(f->removeRuleBlock("u")); tried([&] { f->removeRuleBlock("none"); }); break; }
        default: { std::unique_ptr<Engine> f(sx::build(sx::MAMDANI)); if (a & 1) f->configure(new Minimum, new Maximum, new AlgebraicProduct, new Maximum, new Centroid(3), new General); if (a & 2) f->configure(new Minimum, fl::null, new Minimum, fl::null, fl::null, fl::null); tried([&] { f->process(); }); if (b & 1) f->configure("AlgebraicProduct", "", "Minimum", "Maximum", "Bisector", ""); if (b & 2) f->configure(fl::null, fl::null, fl::null, fl::null, new WeightedAverage, new Proportional); S t; f->isReady(&t); if (c) { f.reset(f->clone()); } tried([&] { f->process(); }); } }
        sx_check(mem::bad == 0, "while in use"); }, "parts are released with their owner");
}
namespace { scalar twice(scalar x) { return 2 * x; } }
CASE(factories, "real", 5, 5, "cost=3 time=60") { // factories of one's own; SUB: which
    first(); balanced([&] { int a = sx_choice("a", 4), b = sx_choice("b", 4); switch (SUB) {
        case 0: { CloningFactory<Function::Element*> f("f"); static const char* const n[] = {"k", "m", "k", "n"}; f.registerObject("k", new Function::Element("k", "k", Function::Element::Operator, &twice, 100)); if (a != 2) f.registerObject(n[a == 0 ? 1 : a], new Function::Element("m", "m", Function::Element::Function, &twice)); CloningFactory<Function::Element*> g(f); std::unique_ptr<Function::Element> e; tried([&] { e.reset(g.cloneObject(n[b])); }); g.deregisterObject("k"); g.deregisterObject("none"); sx_check(f.hasObject("k") && !g.hasObject("k"), "copies have objects of their own"); if (b & 1) g.clear(); std::unique_ptr<CloningFactory<Function::Element*> > h(f.clone()); break; }
        case 1: { FunctionFactory f; f.registerObject("zz", new Function::Element("zz", "zz", Function::Element::Function, &twice)); FunctionFactory g(f); std::unique_ptr<FunctionFactory> h(g.clone()); h->deregisterObject(a & 1 ? "sin" : "+"); if (b & 1) { f.clear(); f = g; } sx_check(g.hasObject("zz") && h->hasObject("zz"), "copies have the objects"); break; }
        case 2: { FactoryManager* m = FactoryManager::instance(); std::unique_ptr<FactoryManager> c(m->clone()); c->function()->registerObject("zz", new Function::Element("zz", "zz", Function::Element::Function, &twice)); if (a & 1) c->setFunction(new FunctionFactory); if (a & 2) c->setTerm(new TermFactory); if (b & 1) { c->setHedge(fl::null); c->setHedge(new HedgeFactory); } if (b & 2) { std::unique_ptr<FactoryManager> d(c->clone()); *d = *m; *c = *d; *d = *d; } sx_check(!m->function()->hasObject("zz"), "the factories of all are as they were"); break; }
        case 3: { FactoryManager* m = FactoryManager::instance(); TermFactory t(*m->term()); t.deregisterConstructor("Ramp"); if (a) t = *m->term(); HedgeFactory h(*m->hedge()); std::unique_ptr<ConstructionFactory<Hedge*> > k(h.clone()); std::unique_ptr<Hedge> x(k->constructObject("very")); tried([&] { x.reset(k->constructObject(b ? "zz" : "not")); }); break; }
        default: { std::unique_ptr<Exporter> x; std::unique_ptr<Importer> y; x.reset(a == 0 ? (Exporter*)new FllExporter : a == 1 ? (Exporter*)new FclExporter : a == 2 ? (Exporter*)new CppExporter : (Exporter*)new JavaExporter); std::unique_ptr<Engine> e(sx::build(b)); S t; tried([&] { t = x->toString(e.get()); }); x.reset(x->clone()); S u; tried([&] { u = x->toString(e.get()); }); sx_check(t == u, "clones write the same"); y.reset(a & 1 ? (Importer*)new FllImporter : (Importer*)new FisImporter); y.reset(y->clone()); if (a & 1) tried([&] { std::unique_ptr<Engine> f(y->fromString(FllExporter().toString(e.get()))); }); Benchmark q("q", e.get()); tried([&] { std::istringstream i("0 0 1\n0.5 0.5 1\n"); q.prepare(i); q.run(1); }); Benchmark r(q); if (b & 1) r = q; r.reset(); } }
        sx_check(mem::bad == 0, "while in use"); }, "objects of factories are released with them");
}

CASE(failing, "real", 6, 6, "cost=3 time=60") { // runs that fail, and what they leave; SUB: kind of engine
    first(); balanced([&] { int w = sx_choice("what", 8), n = sx_choice("runs", 2) + 1; std::unique_ptr<Engine> e(sx::build(SUB)); RuleBlock* b = e->getRuleBlock(0); OutputVariable* o = e->getOutputVariable(0); scalar x = 0.125, y = -0.25; sx::set(e.get(), x, y); if (n == 2) e->process(); switch (w) { case 0: b->setConjunction(fl::null); b->setDisjunction(fl::null); break; case 1: b->setImplication(fl::null); o->setAggregation(fl::null); break; case 2: o->setDefuzzifier(fl::null); break; case 3: o->setDefuzzifier(new WeightedAverage("Tsukamoto")); break; case 4: { Function* f = Function::create("s", "1 + 2"); f->root()->right.reset(); delete o->removeTerm(0); o->insertTerm(f, 0); b->reloadRules(e.get()); break; } case 5: { Function* f = Function::create("f", "x + 1"); f->root()->left.reset(); e->getInputVariable(0)->addTerm(f); tried([&] { b->addRule(Rule::parse("if a is f then o is s", e.get())); }); break; } case 6: { Rule* r = new Rule("if a is zz then o is s"); b->addRule(r); tried([&] { r->load(e.get()); }); break; } default: e->getInputVariable(0)->addTerm(new Discrete("none")); tried([&] { b->addRule(Rule::parse("if a is none then o is l", e.get())); }); }
        for (int i = 0; i < n; ++i) tried([&] { e->process(); }); tried([&] { Engine c(*e); c.process(); }); S t; e->isReady(&t); Engine::Type k = e->type(&t); (void)k; e->restart(); tried([&] { e->process(); }); sx_check(mem::bad == 0, "while in use"); }, "a run that fails leaves nothing behind");
}
CASE(tables, "real", 4, 4, "cost=3 time=60") { // datasets and benchmarks, refused or not; SUB: which
    first(); balanced([&] { std::unique_ptr<Engine> e(sx::build(sx::SUGENO)); static const char* const rows[] = {"0.5 0.25 1", "0.5", "q 1 2", "# 1 2 3", "", "inf nan 1", "1 2 3 4"}; S t; int n = 2; for (int i = 0; i < n; ++i) t += S(rows[sx_choice(i ? "r1" : "r0", 7)]) + "\n"; std::istringstream in(t); std::ostringstream out;
        if (SUB == 0) { Benchmark b("b", e.get()); tried([&] { b.prepare(in); }); tried([&] { b.run(1); }); tried([&] { b.results(); }); tried([&] { in.clear(); in.seekg(0); b.prepare(in, 1); b.runOnce(); }); tried([&] { S z = b.format(b.results(), Benchmark::Horizontal, Benchmark::HeaderAndBody); }); }
        else if (SUB == 1) { tried([&] { FldExporter().write(e.get(), out, in); }); tried([&] { FldExporter().write(e.get(), out, 3, FldExporter::AllVariables); }); }
        else if (SUB == 2) { tried([&] { S z = FldExporter().toString(e.get(), in); }); tried([&] { S z = RScriptExporter().toString(e.get(), e->getInputVariable(0), e->getInputVariable(1), in, e->outputVariables()); }); }
        else { std::unique_ptr<Discrete> d(new Discrete("d")); tried([&] { d->configure(t); }); tried([&] { Discrete::toPairs(Op::toScalars(t)); }); tried([&] { S z = d->toString(); }); std::vector<Discrete::Pair> p = d->xy(); tried([&] { Discrete::sort(p); d->setXY(p); d->membership(0.5); }); }
        sx_check(mem::bad == 0, "while in use"); }, "datasets leave nothing behind");
}
