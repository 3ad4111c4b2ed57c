// Settings: logging and debugging only add messages; the number of decimals and the format only change how numbers are printed; the comparison tolerance is the one given; the default resolution counts for new defuzzifiers. Every setting is what was set last and nothing else changes it.
// BOUNDS: engines of six kinds and every activation method, all inputs, 2 runs with the flags changed before, between and after; all pairs of doubles under any non-negative tolerance; every history of 3 settings; 0-9 decimals
// ASSUME: standard output is a stream over memory in the symbolic build; printed numbers under a chosen number of decimals are concrete
#include "compare.h"
#include "engines.h"
#include <iostream>
#include <sstream>
using namespace fl;
typedef fl::fuzzylite G;
namespace {
struct Out { std::ostringstream text; std::streambuf* old; Out() : old(std::cout.rdbuf(text.rdbuf())) { } ~Out() { std::cout.rdbuf(old); } };
struct Keep { int d; scalar e, t; std::ios_base::fmtflags f; bool l, g; int r; Keep() : d(G::decimals()), e(G::macheps()), t(G::absoluteTolerance()), f(G::scalarFormat()), l(G::isLogging()), g(G::isDebugging()), r(IntegralDefuzzifier::defaultResolution()) { }
    ~Keep() { G::setDecimals(d); G::setMachEps(e); G::setAbsoluteTolerance(t); G::setScalarFormat(f); G::setLogging(l); G::setDebugging(g); IntegralDefuzzifier::setDefaultResolution(r); } };
void flags(int k) { G::setLogging(k & 1); G::setDebugging(k >> 1 & 1); }
S printed(scalar x, int d, bool sci = false) { char b[64]; if (std::fabs(x) < std::pow(10.0, -d)) x = 0; std::snprintf(b, sizeof b, sci ? "%.*e" : "%.*f", d, x); return b; }
template <class F> S failure(F f) { try { f(); } catch (fl::Exception& e) { return e.what(); } catch (std::exception& e) { return S("std: ") + e.what(); } return "none"; }
Activation* method(int k) { switch (k) { case 0: return new General; case 1: return new First(1, 0.25); case 2: return new Last(1, 0.25); case 3: return new Highest(1); case 4: return new Lowest(1); case 5: return new Proportional; default: return new Threshold(">=", 0.25); } }
}
CASE(verbose, "real", 6, 6, "cost=3 time=100") { // SUB: kind of engine
    Keep k; scalar a = sx_real("a", -1, 1), b = SUB == 1 ? 0.25 * (sx_choice("b", 5) - 2) + 0.0625 : sx_real("b", -1, 1); sx_assume((std::fabs(a) > 0.002) & (std::fabs(b) > 0.002)); std::unique_ptr<Engine> e(sx::build(SUB)), f; sx::set(e.get(), a, b); e->process();
    G::setDecimals(-1); int s0 = 3 * sx_choice("building", 2), s1 = sx_choice("running", 3) + 1, s2 = 3 - s1; Out out; flags(s0); f.reset(sx::build(SUB)); sx_check((s0 >> 1) | out.text.str().empty(), "building says nothing unless debugging"); bool quiet = out.text.str().empty(); out.text.str("");
    flags(s1); sx::set(f.get(), a, b); f->process(); sx_check(out.text.str().empty() == !(s1 >> 1), "a run tells about itself only when debugging"); (void)quiet;
    sx_check(sx::sameOutputs(e.get(), f.get()) & sx::sameActivations(e.get(), f.get()), "the flags change no value"); out.text.str("");
    sx::set(e.get(), b, a); sx::set(f.get(), b, a); flags(k.l | k.g << 1); e->process(); flags(s2); f->process(); sx_check(sx::sameOutputs(e.get(), f.get()) & sx::sameActivations(e.get(), f.get()) & sx::samePrevious(e.get(), f.get()), "nor do they in the next run");
    flags(s1); e->restart(); f->restart(); sx_check(cmp::eqEngine(e.get(), f.get()), "nor any part of the engine");
}
CASE(methods, "real", 7, 7, "cost=3 time=60") { // SUB: activation method, rules of any truth, disabled variables and blocks
    Keep k; static const scalar bs[] = {0.125, -0.75, 1}; scalar a = sx_real("a", -1, 1), b = bs[sx_choice("b", 3)]; std::unique_ptr<Engine> e(sx::build(sx::MAMDANI)), f; e->getRuleBlock(0)->setActivation(method(SUB)); int off = sx_choice("off", 6); if (off == 1) e->getInputVariable(1)->setEnabled(false); if (off == 2) e->getOutputVariable(0)->setEnabled(false); if (off == 3) e->getRuleBlock(0)->setEnabled(false); if (off == 4) e->getRuleBlock(0)->getRule(0)->setEnabled(false); if (off == 5) a = fl::nan;
    f.reset(e->clone()); sx::set(e.get(), a, b); sx::set(f.get(), a, b); e->process(); Out out; G::setDecimals(-1); int s = sx_choice("flags", 3) + 1; flags(s); f->process(); sx_check(sx::sameOutputs(e.get(), f.get()) & sx::sameActivations(e.get(), f.get()), "the flags change no value"); sx_check(out.text.str().empty() == !(s >> 1), "and add messages only when debugging");
    bool all = true; for (int i = 0; i < 2; ++i) { Rule *x = e->getRuleBlock(0)->getRule(i), *y = f->getRuleBlock(0)->getRule(i); all = all & (x->isTriggered() == y->isTriggered()) & (same(x->getActivationDegree(), y->getActivationDegree()) | near(x->getActivationDegree(), y->getActivationDegree(), 1e-9)); } sx_check(all, "the same rules are triggered");
}
CASE(texts, "real", 4, 4, "cost=3 time=60") { // exports, imports, sorting and errors
    Keep k; Out out; int s = sx_choice("flags", 4);
    if (SUB < 2) { int kind = sx_choice("kind", 6); std::unique_ptr<Engine> e(sx::build(kind)); if (SUB && e->numberOfRuleBlocks() > 1) { sx_check(true, "the format has one block"); return; } FllExporter fll; FisExporter fis; FclExporter fcl; CppExporter cpp; RScriptExporter r; const Exporter* const xs[] = {&fll, &fcl, &cpp, &fis}; const Exporter& x = *xs[SUB ? 3 : sx_choice("format", 3)]; S t = x.toString(e.get()); flags(s); sx_check(x.toString(e.get()) == t, "the exported text is the same");
        if (&x == &cpp) return; FllImporter l; FclImporter c; FisImporter i; const Importer& m = &x == &fll ? (const Importer&)l : &x == &fcl ? (const Importer&)c : (const Importer&)i; flags(1); std::unique_ptr<Engine> f(m.fromString(t)); out.text.str(""); flags(s); std::unique_ptr<Engine> g(m.fromString(t)); sx_check(cmp::eqEngine(f.get(), g.get()), "the imported engine is the same"); if (!(s >> 1)) sx_check(out.text.str().empty(), "nothing is said unless debugging"); }
    else if (SUB == 2) { G::setDecimals(-1); IntegralDefuzzifier::setDefaultResolution(3); scalar p = sx_real("p", 1, 9), q = sx_real("q", 1, 9); Variable v("v", 0, 10), w; v.addTerm(new Rectangle("r", p, p + 1)); v.addTerm(new Triangle("t", q, q + 1, q + 2)); v.addTerm(new Constant("c", 5)); w = v; v.sort(); flags(s); w.sort(); bool ok = true; for (int i = 0; i < 3; ++i) ok = ok & (v.getTerm(i)->getName() == w.getTerm(i)->getName()); sx_check(ok, "sorting gives the same order"); sx_check(out.text.str().empty() == !(s >> 1), "and tells about it only when debugging"); }
    else { std::unique_ptr<Engine> e(sx::build(sx::MAMDANI)); static const char* const bad[] = {"if a is none then o is s", "if z is low then o is s", "if a is low and then o is s", "if a is low then o is", "when a is low", "if a is low then o is s with x", "if a is low or b is high then o is l"}; int i = sx_choice("text", 7); S t = bad[i], x, y; x = failure([&] { delete Rule::parse(t, e.get()); }); out.text.str(""); flags(s); y = failure([&] { delete Rule::parse(t, e.get()); }); sx_check(x == y && (i == 6) == (x == "none"), "errors are the same"); if (!(s >> 1)) sx_check(out.text.str().empty(), "and are not printed unless debugging"); }
}
CASE(warnings, "real", 1, 1, "cost=2 time=60") { // old words in FLL are understood, and warned about only when logging
    Keep k; Out out; int s = sx_choice("flags", 4), w = sx_choice("word", 4); scalar x = sx_real("x", 1, 9); S a = w & 1 ? "accumulation" : "aggregation", b = w & 2 ? "activation: Minimum" : "implication: Minimum"; S t = "Engine: e\nInputVariable: i\n  range: 0 10\n  term: t Rectangle 2 " + Op::str(x) + "\nOutputVariable: o\n  range: 0 1\n  " + a + ": Maximum\n  term: t Triangle 0 0.5 1\nRuleBlock: r\n  conjunction: Minimum\n  " + b + "\n  rule: if i is t then o is t\n"; flags(s); std::unique_ptr<Engine> e(FllImporter().fromString(t));
    bool ok = e->getOutputVariable(0)->fuzzyOutput()->getAggregation() && e->getOutputVariable(0)->fuzzyOutput()->getAggregation()->className() == "Maximum" && e->getRuleBlock(0)->getImplication() && e->getRuleBlock(0)->getImplication()->className() == "Minimum"; sx_check(ok & near(((Rectangle*)e->getInputVariable(0)->getTerm(0))->getEnd(), x, 1e-9), "old words are understood"); S o = out.text.str(); if (!(s >> 1)) sx_check(o.empty() == (w == 0 || !(s & 1)), "warnings are printed when logging only"); else sx_check(true, "messages");
}
static scalar tol(const char* n) { scalar e = sx_fp(n); sx_assume((e >= 0) & (e < 1e300)); return e; }
CASE(tolerance, "fp", 6, 6, "cost=3 time=60") { // SUB: comparison; every tolerance and all values
    Keep k; scalar e = tol("e"), a = sx_fp("a"), b = sx_fp("b"), d = tol("d"); bool q = (a == b) | (std::fabs(a - b) < e) | ((a != a) & (b != b)), p = (a == b) | (std::fabs(a - b) < d) | ((a != a) & (b != b)); G::setMachEps(e); bool got, other, fun, want, alt;
    switch (SUB) { case 0: got = Op::isEq(a, b); other = Op::isEq(a, b, d); fun = Op::eq(a, b) == 1; want = q; alt = p; break; case 1: got = Op::isLt(a, b); other = Op::isLt(a, b, d); fun = Op::lt(a, b) == 1; want = !q & (a < b); alt = !p & (a < b); break; case 2: got = Op::isGt(a, b); other = Op::isGt(a, b, d); fun = Op::gt(a, b) == 1; want = !q & (a > b); alt = !p & (a > b); break;
    case 3: got = Op::isLE(a, b); other = Op::isLE(a, b, d); fun = Op::le(a, b) == 1; want = q | (a < b); alt = p | (a < b); break; case 4: got = Op::isGE(a, b); other = Op::isGE(a, b, d); fun = Op::ge(a, b) == 1; want = q | (a > b); alt = p | (a > b); break; default: got = !Op::isEq(a, b); other = Op::isClose(a, b, d); fun = Op::neq(a, b) == 1; want = !q; alt = p; }
    sx_check(got == want, "values are compared with the tolerance set"); sx_check(other == alt, "or with the one given"); sx_check(fun == want, "formulas compare the same way");
}
CASE(users, "real", 8, 8, "cost=2 time=60") { // those who compare use the tolerance set: SUB < 6: Threshold activation, 6: rectangles, 7: logic in formulas
    Keep k; scalar e = sx_real("e", 0, 0.25); scalar x = sx_real("x", -1, 2), t = sx_real("t", 0, 1); G::setMachEps(e); bool q = (x == t) | (std::fabs(x - t) < e);
    if (SUB < 6) { static const char* const op[] = {"<", "<=", "==", "!=", ">=", ">"}; Threshold h(op[SUB], t); bool want = SUB == 0 ? !q & (x < t) : SUB == 1 ? q | (x < t) : SUB == 2 ? q : SUB == 3 ? !q : SUB == 4 ? q | (x > t) : !q & (x > t); sx_check(h.activatesWith(x) == want, "thresholds are met within the tolerance"); }
    else if (SUB == 6) { scalar w = sx_real("w", 1, 2); Rectangle r("r", t, t + w); scalar m = r.membership(x); bool in = (x > t - e) & (x < t + w + e), out = (x < t - e) | (x > t + w + e); sx_check((m == 1) | !in, "inside within the tolerance"); sx_check((m == 0) | !out, "outside beyond it"); }
    else { scalar y = sx_real("y", -1, 2); bool p = (x == 1) | (std::fabs(x - 1) < e), r = (y == 1) | (std::fabs(y - 1) < e); sx_check((Op::logicalAnd(x, y) == 1) == (p & r), "and"); sx_check((Op::logicalOr(x, y) == 1) == (p | r), "or"); sx_check((Op::logicalNot(x) == 0) == p, "not"); }
}
CASE(decimals, "real", 6, 6, "cost=2 time=60") { // SUB: kind of engine; the number of decimals and the format change no value
    Keep k; scalar a = sx_real("a", -1, 1), b = sx_real("b", -1, 1); std::unique_ptr<Engine> e(sx::build(SUB)), f; sx::set(e.get(), a, b); e->process(); int d = sx_choice("d", 3) * 4; G::setDecimals(d); if (sx_choice("format", 2)) G::setScalarFormat(std::ios_base::scientific); f.reset(sx::build(SUB)); sx::set(f.get(), a, b); f->process(); sx_check(sx::sameOutputs(e.get(), f.get()) & sx::sameActivations(e.get(), f.get()), "printing does not change what is computed");
}
CASE(printing, "real", 22, 22, "cost=2 time=60") { // SUB: term: its parameters are printed with the decimals and format set
    Keep k; if (SUB == 21) { static const scalar x[] = {2.0 / 3, -1234.56789, 0.0004, -0.05, 1e6, 0}; int i = sx_choice("x", 6), d = sx_choice("d", 10); bool sci = sx_choice("sci", 2); G::setDecimals(d); if (sci) G::setScalarFormat(std::ios_base::scientific); scalar v = x[i]; sx_check(Op::str(x[i]) == printed(v, d, sci), "numbers are printed with the decimals set"); sx_check(Op::str(x[i], 2) == printed(v, 2, sci), "or those given"); sx_check(Op::str(x[i], d, std::ios_base::fixed) == printed(v, d), "or the format given"); std::vector<scalar> two(2, x[i]); two[1] = 7; sx_check(Op::join(two, " ") == printed(v, d, sci) + " " + printed(7, d, sci), "lists too"); return; }
    static const char* const names[] = {"Bell", "Binary", "Concave", "Constant", "Cosine", "GaussianProduct", "Gaussian", "PiShape", "Ramp", "Rectangle", "SemiEllipse", "Sigmoid", "SigmoidDifference", "SigmoidProduct", "Spike", "SShape", "Trapezoid", "Triangle", "ZShape", "Discrete", "Linear"}; static const int n[] = {3, 2, 2, 1, 2, 4, 2, 4, 2, 2, 0, 2, 4, 4, 2, 2, 4, 3, 2, 4, 3};
    if (!n[SUB]) { sx_check(true, "no such term"); return; } int d = sx_choice("d", 8); bool sci = sx_choice("sci", 2), high = SUB < 19 && SUB != 3 && sx_choice("height", 2); std::unique_ptr<Term> t(FactoryManager::instance()->term()->constructObject(names[SUB])); S want, in; for (int i = 0; i < n[SUB]; ++i) { scalar v = 1.0 / 3 + i * 1.0625; char b[40]; std::snprintf(b, sizeof b, "%.17g", v); in += (i ? " " : "") + S(b); want += (i ? " " : "") + printed(v, d, sci); } if (high) { in += " 0.625"; want += " " + printed(0.625, d, sci); }
    t->configure(in); t->setName("n"); G::setDecimals(d); if (sci) G::setScalarFormat(std::ios_base::scientific); sx_check(t->parameters() == want, "parameters are printed with the decimals set"); sx_check(t->toString() == "term: n " + S(names[SUB]) + " " + want, "and so is the term"); sx_check(FllExporter().toString(t.get()) == t->toString(), "and its export");
}
CASE(history, "fp", 3, 3, "cost=2 time=60") { // any three settings in any order: SUB: the first
    Keep k; int dec = 3; scalar eps = 1e-6, atol = 1e-3; std::ios_base::fmtflags fmt = std::ios_base::fixed; bool log = true, dbg = false; int res = IntegralDefuzzifier::defaultResolution();
    bool ok = (G::decimals() == dec) & (G::macheps() == eps) & (G::absoluteTolerance() == atol) & (G::scalarFormat() == fmt) & (G::isLogging() == log) & (G::isDebugging() == dbg); sx_check(ok, "settings have their documented defaults");
    for (int i = 0; i < 3; ++i) { char nm[8]; std::snprintf(nm, sizeof nm, "s%d", i); int s = i == 0 ? SUB * 2 + sx_choice(nm, SUB == 2 ? 3 : 2) : sx_choice(nm, 7); std::snprintf(nm, sizeof nm, "v%d", i);
        switch (s) { case 0: G::setDecimals(dec = sx_int(nm, -100, 100)); break; case 1: G::setMachEps(eps = sx_fp(nm)); break; case 2: G::setAbsoluteTolerance(atol = sx_fp(nm)); break; case 3: G::setScalarFormat(fmt = (std::ios_base::fmtflags)sx_int(nm, 0, 1000)); break; case 4: G::setLogging(log = sx_bool(nm)); break; case 5: G::setDebugging(dbg = sx_bool(nm)); break; default: IntegralDefuzzifier::setDefaultResolution(res = sx_int(nm, 1, 100000)); } }
    ok = (G::decimals() == dec) & same(G::macheps(), eps) & same(G::absoluteTolerance(), atol) & (G::scalarFormat() == fmt) & (G::isLogging() == log) & (G::isDebugging() == dbg) & (IntegralDefuzzifier::defaultResolution() == res); sx_check(ok, "each setting has the value given last");
}
CASE(resolution, "real", 5, 5, "cost=2 time=60") { // SUB: integral defuzzifier
    Keep k; static const char* const n[] = {"Centroid", "Bisector", "SmallestOfMaximum", "MeanOfMaximum", "LargestOfMaximum"}; DefuzzifierFactory* f = FactoryManager::instance()->defuzzifier(); std::unique_ptr<Defuzzifier> a(f->constructObject(n[SUB])), b(a->clone()); int r0 = IntegralDefuzzifier::defaultResolution(), r = sx_int("r", 1, 5000), own = sx_int("own", 1, 5000); IntegralDefuzzifier *x = dynamic_cast<IntegralDefuzzifier*>(a.get()), *y = dynamic_cast<IntegralDefuzzifier*>(b.get()); y->setResolution(own); IntegralDefuzzifier::setDefaultResolution(r);
    sx_check((r0 == 1000) & (x->getResolution() == r0) & (y->getResolution() == own), "those that exist keep their resolution"); std::unique_ptr<Defuzzifier> c(f->constructObject(n[SUB])), d(b->clone()), g(FllImporter().fromString("Engine: e\nOutputVariable: o\n  defuzzifier: " + S(n[SUB]) + "\n")->getOutputVariable(0)->getDefuzzifier()->clone()), h(FllImporter().fromString("Engine: e\nOutputVariable: o\n  defuzzifier: " + S(n[SUB]) + " 77\n")->getOutputVariable(0)->getDefuzzifier()->clone());
    sx_check((dynamic_cast<IntegralDefuzzifier*>(c.get())->getResolution() == r) & (dynamic_cast<IntegralDefuzzifier*>(g.get())->getResolution() == r), "new ones have the default resolution"); sx_check((dynamic_cast<IntegralDefuzzifier*>(d.get())->getResolution() == own) & (dynamic_cast<IntegralDefuzzifier*>(h.get())->getResolution() == 77), "unless another is given");
}
CASE(about, "real", 1, 1, "cost=1 time=30") { int k = sx_choice("k", 2); S n = G::name(), v = G::version(), l = G::library(); sx_check(n == "fuzzylite" && l == n + " " + v, "the library is its name and version"); sx_check(k ? !G::license().empty() && !G::website().empty() : G::author() == "Juan Rada-Vilela, Ph.D." && G::company() == "FuzzyLite Limited", "and tells its author"); }
CASE(carried, "real", 4, 4, "cost=2 time=60") { // SUB: integral defuzzifier; its resolution is carried by FLL text whatever the default is
    Keep k; static const char* const n[] = {"Centroid", "Bisector", "SmallestOfMaximum", "LargestOfMaximum"}; static const int r[] = {1, 50, 100, 101, 1000, 2000}; DefuzzifierFactory* f = FactoryManager::instance()->defuzzifier(); IntegralDefuzzifier::setDefaultResolution(r[sx_choice("default", 6)]); std::unique_ptr<Engine> e(sx::build(sx::MAMDANI)), g; int x = r[sx_choice("resolution", 6)];
    Defuzzifier* d = f->constructObject(n[SUB]); dynamic_cast<IntegralDefuzzifier*>(d)->setResolution(x); e->getOutputVariable(0)->setDefuzzifier(d); g.reset(FllImporter().fromString(FllExporter().toString(e.get()))); IntegralDefuzzifier* q = dynamic_cast<IntegralDefuzzifier*>(g->getOutputVariable(0)->getDefuzzifier()); sx_check(q && q->className() == n[SUB] && q->getResolution() == x, "text read under the default that it was written under gives the same resolution");
}
