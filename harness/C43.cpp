// Errors: a refusal is an fl::Exception that names what was refused; messages and traces are kept in order; after a failure the engine, rule, formula or factory works as one that never failed.
// BOUNDS: refused names of any 2 letters (any 2 printable bytes where the text is taken as given) in every lookup by name, factory, rule, formula, importer and option; 12 ways in which a run of an engine with 2 inputs fails, any inputs before and after the repair; histories of 3 messages of any 2 bytes
// ASSUME: standard output is a stream over memory in the symbolic build
#include "compare.h"
#include "engines.h"
#include "files.h"
#include <iostream>
#include <sstream>
using namespace fl;
typedef fl::fuzzylite G;
namespace {
struct Out { std::ostringstream text; std::streambuf* old; Out() : old(std::cout.rdbuf(text.rdbuf())) { } ~Out() { std::cout.rdbuf(old); } };
bool has(const S& t, const S& p) { bool r = false; for (size_t i = 0; i + p.size() <= t.size(); ++i) { bool m = true; for (size_t j = 0; j < p.size(); ++j) m = m & (t[i + j] == p[j]); r = r | m; } return r; }
bool eq(const S& a, const S& b) { bool r = a.size() == b.size(); for (size_t i = 0; r && i < a.size(); ++i) r = r & (a[i] == b[i]); return r; }
struct Own : std::exception { S t; explicit Own(const S& w) : t(w) { } ~Own() throw() { } const char* what() const throw() { return t.c_str(); } };
const char* const none = "no error"; const char* const other = "another kind of exception";
template <class F> S why(F f) { try { f(); } catch (fl::Exception& e) { if (S(e.what()) != e.getWhat()) return other; return e.what(); } catch (std::exception&) { return other; } return none; }
S letters(const char* n, char lo = 'q', char hi = 'z') { char b[16]; std::snprintf(b, sizeof b, "%s0", n); S t(1, (char)sx_int(b, lo, hi)); std::snprintf(b, sizeof b, "%s1", n); return t + (char)sx_int(b, lo, hi); }
S bytes(const char* n) { return letters(n, 33, 126); }
bool names(const S& w, const S& p) { return (w != none) & (w != other) && has(w, p); }
}
CASE(messages, "real", 5, 5, "cost=2 time=60") { // SUB: how it is made
    S a = bytes("a"), b = bytes("b"), c = bytes("c"); static const int ln[] = {0, 7, 123456}; int line = ln[sx_choice("line", 3)]; S l = Op::str(line), at = "\n{at " + b + "::" + c + "() [line:" + l + "]}", want = a; Exception e(a);
    if (SUB == 1) { e = Exception(a, b, line, c); want += at; } else if (SUB == 2) { e.append(b); want += b + "\n"; } else if (SUB == 3) { e.append(b, line, c); want += at; } else if (SUB == 4) { e.append(b, b, line, c); want += b + "\n" + at; }
    sx_check(eq(e.what(), want), "messages and traces are told in order"); sx_check(eq(e.getWhat(), want), "in either way"); Exception f(e), g("x"); g = e;
    if (sx_choice("more", 2)) { e.append(c); e.append(a, line, b); want += c + "\n\n{at " + a + "::" + b + "() [line:" + l + "]}"; sx_check(eq(e.what(), want), "further ones follow"); sx_check(eq(f.what(), g.what()) & (f.getWhat().size() < want.size()), "copies keep theirs"); } else sx_check(eq(f.what(), want) & eq(g.what(), want), "copies tell the same"); e.setWhat(c); sx_check(eq(e.what(), c), "a new message replaces the old one");
    bool thrown = false; try { throw f; } catch (std::exception& x) { thrown = eq(x.what(), g.what()); } sx_check(thrown, "it is a standard exception");
}
CASE(logged, "real", 2, 2, "cost=1 time=30") { // reported on standard output when logging only; SUB: logging
    bool l = G::isLogging(), d = G::isDebugging(); Out out; S a = bytes("a"); Exception e(a); G::setLogging(SUB); bool std = sx_choice("std", 2); Own r(a); Exception::catchException(std ? (const std::exception&)r : e); G::setLogging(l); G::setDebugging(d); S t = out.text.str(); sx_check(SUB ? has(t, a) : t.empty(), "errors that are caught are told when logging"); sx_check(eq(e.what(), a), "and stay as they are");
}
CASE(lookups, "real", 9, 9, "cost=2 time=60") { // SUB: what is looked up by a name that is not there
    std::unique_ptr<Engine> e(sx::build(sx::MAMDANI)); S n = bytes("n"), w; Engine* p = e.get(); const S before = FllExporter().toString(p);
    switch (SUB) { case 0: w = why([&] { p->getInputVariable(n); }); break; case 1: w = why([&] { p->getOutputVariable(n); }); break; case 2: w = why([&] { p->getRuleBlock(n); }); break; case 3: w = why([&] { p->removeInputVariable(n); }); break; case 4: w = why([&] { p->removeOutputVariable(n); }); break; case 5: w = why([&] { p->removeRuleBlock(n); }); break; case 6: w = why([&] { p->getInputVariable(0)->getTerm(n); }); sx_check(has(w, "<a>"), "and where it was looked up"); break; case 7: w = why([&] { p->getOutputVariable(0)->getTerm(n); }); sx_check(has(w, "<o>"), "and where it was looked up"); break; default: w = why([&] { Threshold t; t.parseComparison(n); }); }
    if (SUB == 8) { bool known = false; static const char* const k[] = {"<=", "==", "!=", ">="}; for (int i = 0; i < 4; ++i) known = known | eq(n, k[i]); sx_check(known == (w == none), "comparisons that exist are accepted"); if (known) return; }
    sx_check(names(w, n), "what is missing is named"); sx_check(FllExporter().toString(p) == before, "nothing has changed");
}
CASE(factories, "real", 8, 8, "cost=2 time=60") { // SUB: factory
    FactoryManager* m = FactoryManager::instance(); S n = bytes("n"), w; switch (SUB) { case 0: w = why([&] { m->term()->constructObject(n); }); break; case 1: w = why([&] { m->tnorm()->constructObject(n); }); break; case 2: w = why([&] { m->snorm()->constructObject(n); }); break; case 3: w = why([&] { m->hedge()->constructObject(n); }); break; case 4: w = why([&] { m->defuzzifier()->constructObject(n); }); break; case 5: w = why([&] { m->activation()->constructObject(n); }); break; case 6: { sx_assume((n[0] >= 'A') & (n[0] <= 'Z')); w = why([&] { m->function()->cloneObject(n); }); break; } default: { ConstructionFactory<Term*> f("own"); w = why([&] { f.constructObject(n); }); sx_check(has(w, "own"), "with the factory"); } }
    sx_check(names(w, n), "what is not registered is named"); std::unique_ptr<Term> t(m->term()->constructObject("Ramp")); sx_check(t->className() == "Ramp" && !m->term()->hasConstructor(n), "the factory works on");
}
CASE(rules, "real", 12, 12, "cost=3 time=120") { // SUB: where in a rule an unknown word is
    std::unique_ptr<Engine> e(sx::build(sx::MAMDANI)); S q = letters("w"), t, good = "if a is very low and b is not high then o is s with 0.5";
    switch (SUB) { case 0: t = q + " a is low then o is s"; break; case 1: t = "if " + q + " is low then o is s"; break; case 2: t = "if a " + q + " low then o is s"; break; case 3: t = "if a is " + q + " then o is s"; break; case 4: t = "if a is low " + q + " b is low then o is s"; break; case 5: t = "if a is low and " + q + " is low then o is s"; break; case 6: t = "if a is low then " + q + " is s"; break; case 7: t = "if a is low then o " + q + " s"; break; case 8: t = "if a is low then o is " + q; break; case 9: t = "if a is low then o is s " + q + " o is l"; break; case 10: t = "if a is low then o is s with " + q; break; default: t = "if a is low then o is s with 0.5 " + q; }
    Rule r; bool was = sx_choice("loaded", 2); if (was) r.load(good, e.get()); S w = why([&] { r.load(t, e.get()); }); sx_check(names(w, q), "the word that is not understood is named"); sx_check(!r.isLoaded() & !r.isTriggered() & (r.getActivationDegree() == 0), "the rule is not loaded"); sx_check(eq(r.getText(), t), "the rule keeps the text");
    S u = why([&] { r.activateWith(fl::null, fl::null); }), v = why([&] { r.trigger(fl::null); }); sx_check(names(u, q) & names(v, q), "a rule that is not loaded is refused with its text"); scalar x = sx_real("x", -1, 1), y = sx_real("y", -1, 1); sx::set(e.get(), x, y); r.load(good, e.get()); std::unique_ptr<Rule> s(Rule::parse(good, e.get())); Minimum m; sx_check(near(r.activateWith(&m, fl::null), s->activateWith(&m, fl::null), 1e-9), "a better text works as in a new rule");
    RuleBlock b; b.addRule(new Rule(good)); Rule* bad = new Rule; bad->setText(t); b.addRule(bad); b.addRule(new Rule(good)); S q2 = "unknown"; bad = new Rule; bad->setText("if b is high then o is " + q2); b.addRule(bad); S z = why([&] { b.loadRules(e.get()); }); sx_check(names(z, q) & names(z, q2), "a block names them all"); sx_check(b.getRule(0)->isLoaded() & !b.getRule(1)->isLoaded() & b.getRule(2)->isLoaded() & !b.getRule(3)->isLoaded(), "and loads the others");
}
CASE(formulas, "real", 6, 6, "cost=3 time=60") { // SUB: what a formula lacks
    S q = letters("w"), t, w; std::unique_ptr<Engine> e(sx::build(sx::MAMDANI)); scalar x = sx_real("x", -1, 1); e->getInputVariable(0)->setValue(x); Function f("f"); f.setEngine(e.get());
    if (SUB == 0) t = "a + " + q; else if (SUB == 1) t = q + " 3 + 2 * x"; else if (SUB == 2) t = "(" + q; else if (SUB == 3) t = "max(" + q + ")"; else if (SUB == 4) t = q + " )"; else t = "";
    if (sx_choice("before", 2)) f.load("2 * a"); w = why([&] { f.load(t); }); sx_check(SUB == 5 ? w != none && w != other : SUB == 3 ? names(w, "max") : names(w, q), "what is not understood is named"); S u = SUB ? why([&] { f.membership(0); }) : S(); sx_check(SUB == 0 || (names(u, t) | f.isLoaded()), "a formula that is not loaded is refused");
    f.load("a * 3 + x"); sx_check(near(f.membership(1), x * 3 + 1, 1e-9), "a better formula works as in a new term"); 
}
CASE(words, "real", 8, 8, "cost=3 time=60") { // SUB: unknown words in texts to import and in parameters
    S q = letters("w"), t, w; FllImporter l; FisImporter s; FclImporter c; switch (SUB) {
        case 0: { t = q + ": e\n"; if (sx_choice("in", 2)) t = "Engine: e\n" + t; w = why([&] { delete l.fromString(t); }); break; }
        case 1: { static const char* const blk[] = {"InputVariable", "OutputVariable", "RuleBlock"}; t = "Engine: e\n" + S(blk[sx_choice("block", 3)]) + ": b\n  " + q + ": 1\n"; w = why([&] { delete l.fromString(t); }); break; }
        case 2: { static const char* const k[] = {"InputVariable: v\n  enabled: ", "InputVariable: v\n  term: t ", "OutputVariable: v\n  aggregation: ", "OutputVariable: v\n  defuzzifier: ", "RuleBlock: v\n  conjunction: ", "RuleBlock: v\n  disjunction: ", "RuleBlock: v\n  implication: ", "RuleBlock: v\n  activation: ", "InputVariable: v\n  range: 0 ", "OutputVariable: v\n  default: "}; t = "Engine: e\n" + S(k[sx_choice("key", 10)]) + q + "\n"; w = why([&] { delete l.fromString(t); }); break; }
        case 3: t = "[System]\n" + q + "=1\n"; w = why([&] { delete s.fromString(t); }); break;
        case 4: t = "[" + q + "]\nName='e'\n"; w = why([&] { delete s.fromString(t); }); break;
        case 5: { static const char* const k[] = {"AndMethod='", "OrMethod='", "ImpMethod='", "AggMethod='", "DefuzzMethod='"}; t = "[System]\nName='e'\n" + S(k[sx_choice("key", 5)]) + q + "'\n[Output1]\nName='o'\nRange=[0 1]\n"; w = why([&] { delete s.fromString(t); }); break; }
        case 6: { static const char* const k[] = {"FUZZIFY v\n  ", "DEFUZZIFY v\n  ", "RULEBLOCK v\n  "}; static const char* const z[] = {"\nEND_FUZZIFY\n", "\nEND_DEFUZZIFY\n", "\nEND_RULEBLOCK\n"}; int i = sx_choice("block", 3); t = "FUNCTION_BLOCK e\nVAR_INPUT\nv: REAL;\nEND_VAR\nVAR_OUTPUT\nv: REAL;\nEND_VAR\n" + S(k[i]) + q + " : 1;" + z[i] + "END_FUNCTION_BLOCK\n"; w = why([&] { delete c.fromString(t); }); break; }
        default: { int k = sx_choice("k", 8); static const char* const n[] = {"Triangle", "Gaussian", "Discrete", "Linear"}; if (k < 4) { std::unique_ptr<Term> m(FactoryManager::instance()->term()->constructObject(n[k])); w = why([&] { m->configure("0 1 2 " + q); }); if (k == 1) w = why([&] { m->configure(q + " 1"); }); } else if (k == 4) { Threshold h; w = why([&] { h.configure(q + " 1"); }); } else if (k == 5) { Highest h; w = why([&] { h.configure(q); }); } else if (k == 6) { WeightedAverage a; w = why([&] { a.setType(q); }); } else w = why([&] { Op::toScalar(q); }); } }
    sx_check(names(w, q), "the word that is not understood is named");
}
namespace {
// ways in which a run fails, and their repair
const int ways = 12;
void breakIt(Engine* e, int k) { RuleBlock* b = e->getRuleBlock(0); OutputVariable* o = e->getOutputVariable(0); switch (k) { case 0: b->setConjunction(fl::null); break; case 1: b->setDisjunction(fl::null); break; case 2: b->setImplication(fl::null); break; case 3: o->setAggregation(fl::null); break; case 4: o->setDefuzzifier(fl::null); break; case 5: o->setDefuzzifier(new WeightedAverage("Tsukamoto")); break; case 6: o->setDefuzzifier(new WeightedSum); break;
    case 7: delete o->removeTerm(1); o->addTerm(new Function("l", "a +", e)); e->getRuleBlock(0)->reloadRules(e); break; case 8: delete o->removeTerm(1); o->addTerm(new Linear("l", std::vector<scalar>(1, 0.5), fl::null)); b->reloadRules(e); break; case 9: { Function* f = Function::create("l", "0.25 + 0.5"); f->root()->right.reset(); (void)f; delete o->removeTerm(1); o->addTerm(f); b->reloadRules(e); break; } case 10: o->removeTerm(1); o->addTerm(new Constant("l", 2)); o->setDefuzzifier(new WeightedAverage); b->reloadRules(e); break; default: e->getInputVariable(0)->addTerm(new Discrete("none")); b->addRule(Rule::parse("if a is none then o is s", e)); } }
void repair(Engine* e, int k) { RuleBlock* b = e->getRuleBlock(0); OutputVariable* o = e->getOutputVariable(0); switch (k) { case 0: b->setConjunction(new Minimum); break; case 1: b->setDisjunction(new Maximum); break; case 2: b->setImplication(new Minimum); break; case 3: o->setAggregation(new Maximum); break; case 4: case 5: case 6: o->setDefuzzifier(new Centroid(3)); break; case 7: case 8: case 9: case 10: delete o->removeTerm(1); o->addTerm(new Ramp("l", 1, 3)); o->setDefuzzifier(new Centroid(3)); b->reloadRules(e); break; default: delete b->removeRule(2); } }
const char* const what[] = {"a is low and b is not low", "a is high or b is mid", "implication", "o", "o", "", "", "a +", "l", "", "", "empty"};
}
CASE(runs, "real", ways, ways, "cost=3 time=60") { // a run that fails, the repair, another run; SUB: what fails
    std::unique_ptr<Engine> e(sx::build(sx::MAMDANI)), f(sx::build(sx::MAMDANI)); scalar a = sx_real("a", -1, 1), b = sx_real("b", -1, 1); static const scalar xs[] = {0.125, -0.75, 1}; scalar x = xs[sx_choice("x", 3)], y = 0.25; bool before = sx_choice("before", 2); if (before) { sx::set(e.get(), x, y); e->process(); } breakIt(e.get(), SUB); sx::set(e.get(), x, y); S w = why([&] { e->process(); });
    sx_check(w != other, "the failure is an error of the library"); if (w != none) sx_check(has(w, what[SUB]), "it tells what is missing"); if (SUB < 2 || SUB == 4 || SUB == 11) sx_check(w != none, "the run is refused"); if (sx_choice("again", 2)) sx_check(eq(why([&] { e->process(); }), w), "the same run fails the same way");
    repair(e.get(), SUB); S m; sx_check(e->isReady(&m) && m.empty(), "the repaired engine is ready"); sx::set(e.get(), a, b); sx::set(f.get(), a, b); e->process(); f->process(); sx_check(sx::sameOutputs(e.get(), f.get()) & sx::sameActivations(e.get(), f.get()), "the repaired engine computes what one that never failed does");
}
CASE(chain, "real", 3, 3, "cost=3 time=60") { // the second block or output fails; SUB: what fails
    std::unique_ptr<Engine> e(sx::build(sx::CHAINED)), f(sx::build(sx::CHAINED)); scalar a = sx_real("a", -1, 1), b = sx_real("b", -1, 1); static const scalar xs[] = {0.125, -0.75, 1}; scalar x = xs[sx_choice("x", 3)]; if (SUB == 0) e->getRuleBlock(1)->setConjunction(fl::null); else e->getOutputVariable(SUB - 1)->setDefuzzifier(fl::null); sx::set(e.get(), x, 0.5); S w = why([&] { e->process(); }); sx_check((w != none) & (w != other), "the run is refused"); sx_check(has(w, SUB == 0 ? "p is l and b is high" : SUB == 1 ? "'p'" : "'o'"), "it tells what is missing");
    if (SUB == 0) e->getRuleBlock(1)->setConjunction(new AlgebraicProduct); else e->getOutputVariable(SUB - 1)->setDefuzzifier(SUB == 1 ? (Defuzzifier*)new WeightedSum : new WeightedAverage); sx::set(e.get(), a, b); sx::set(f.get(), a, b); e->process(); f->process(); sx_check(sx::sameOutputs(e.get(), f.get()) & sx::sameActivations(e.get(), f.get()), "the repaired engine computes what one that never failed does");
}
