// Files: exporting to a file writes exactly the exported text, in place of what the file held; importing from a file gives what importing its text gives; files that cannot be opened are refused.
// BOUNDS: the seven exporters and three importers; engines of six kinds with 1-2 variables, any ranges and term parameters in [1,50]; 1-9 rows of data, every scope, any subset of inputs active, 1-3 given rows with any values; previous contents shorter, longer and none
// BOUNDS: imported texts: each exported one with and without its last newline, with "\r\n" line ends, cut or extended by any 1-2 bytes; empty files
// ASSUME: in the symbolic build files are a table from path to text, and only files directly inside one directory can be created; replays use a directory of their own
#include "compare.h"
#include "engines.h"
#include "files.h"
using namespace fl;
using namespace files;
static Engine* simple(int inputs) {
    Engine* e = new Engine("e"); static const char* const n[] = {"a", "b"}; scalar lo = sx_real("lo", 1, 50);
    for (int i = 0; i < inputs; ++i) { InputVariable* v = new InputVariable(n[i], 0, 1); v->setRange(i ? 1 : lo, i ? 2 : 60); v->addTerm(new Ramp("t", 0, sx_real(i ? "p1" : "p0", 1, 50))); e->addInputVariable(v); }
    OutputVariable *o = new OutputVariable("o", 0, 1), *p = new OutputVariable("p", 0, 1); o->addTerm(new Constant("k", sx_real("k", 1, 50))); o->setDefuzzifier(new WeightedAverage("TakagiSugeno")); p->setDefuzzifier(new WeightedAverage("TakagiSugeno")); p->setDefaultValue(0.25); e->addOutputVariable(o); e->addOutputVariable(p);
    RuleBlock* b = new RuleBlock("r"); b->setActivation(new General); b->setImplication(new AlgebraicProduct); b->addRule(Rule::parse("if a is any then o is k", e)); e->addRuleBlock(b); return e;
}
static const char* const before[] = {"", "x", "a text\nthat was there\n"};
static S target(Scratch& d, const char* name) { S p = d.path(name); int k = sx_choice("before", 4); if (k < 3) put(p, k < 2 ? before[k] : S(20000, '#')); return p; }
template <class F> static bool refuses(F f) { try { f(); } catch (fl::Exception&) { return true; } return false; }
CASE(exporters, "real", 5, 5, "cost=2 time=60") {
    Scratch d; std::unique_ptr<Engine> e(simple(1 + sx_choice("inputs", 2))); FllExporter fll; FisExporter fis; FclExporter fcl; CppExporter cpp(sx_choice("prefix", 2)); JavaExporter java; const Exporter* const all[] = {&fll, &fis, &fcl, &cpp, &java}; const Exporter* x = all[SUB];
    S p = target(d, "engine.txt"); x->toFile(p, e.get()); sx_check(sameText(get(p), x->toString(e.get()) + "\n"), "the file holds the exported text and a newline");
    bool refused = false; try { x->toFile(d.denied(), e.get()); } catch (fl::Exception& ex) { refused = S(ex.what()).find(d.denied()) != S::npos; } sx_check(refused & !exists(d.denied()), "a file that cannot be created is refused by name");
}
CASE(kinds, "real", 18, 18, "cost=2 time=60") { // any engine, there and back: SUB: kind of engine, format
    Scratch d; std::unique_ptr<Engine> e(sx::build(SUB % 6)); int f = SUB / 6; FllExporter fll; FisExporter fis; FclExporter fcl; const Exporter* const xs[] = {&fll, &fis, &fcl}; FllImporter l; FisImporter s; FclImporter c; const Importer* const is[] = {&l, &s, &c};
    if (f == 1 && e->numberOfRuleBlocks() != 1) { sx_check(true, "the format has one block"); return; }
    e->getInputVariable(0)->setRange(-1 - sx_real("r", 0, 5), 7); S p = target(d, "file"); xs[f]->toFile(p, e.get()); sx_check(sameText(get(p), xs[f]->toString(e.get()) + "\n"), "the file holds the exported text");
    std::unique_ptr<Engine> g(is[f]->fromFile(p)), h(is[f]->fromString(xs[f]->toString(e.get()))); sx_check(cmp::eqEngine(g.get(), h.get()), "importing the file gives what importing the text gives");
}
CASE(data, "real", 2, 2, "cost=3 time=60") { // SUB + 1 inputs
    Scratch d; int n = SUB + 1; std::unique_ptr<Engine> e(simple(n)); FldExporter x(sx_choice("separator", 2) ? ", " : " "); x.setExportHeader(sx_choice("header", 2)); x.setExportInputValues(sx_choice("in", 2)); FldExporter::ScopeOfValues scope = sx_choice("scope", 2) ? FldExporter::AllVariables : FldExporter::EachVariable; int values = 1 + sx_choice("values", n == 1 ? 4 : 3); S p = d.path("data.fld"); put(p, S(5000, '#'));
    x.toFile(p, e.get(), values, scope); sx_check(sameText(get(p), x.toString(e.get(), values, scope)), "the file holds the grid");
    std::vector<InputVariable*> act; int mask = sx_choice("mask", 1 << n); for (int i = 0; i < n; ++i) { e->getInputVariable(i)->setValue(2.0 + i); act.push_back(mask >> i & 1 ? e->getInputVariable(i) : fl::null); }
    x.toFile(p, e.get(), values, scope, act); S got = get(p); for (int i = 0; i < n; ++i) e->getInputVariable(i)->setValue(2.0 + i); sx_check(sameText(got, x.toString(e.get(), values, scope, act)), "the file holds the grid of the active variables");
    sx_check(refuses([&] { x.toFile(d.denied(), e.get(), values, scope); }) & refuses([&] { x.toFile(d.denied(), e.get(), values, scope, act); }), "a file that cannot be created is refused");
}
CASE(reader, "real", 4, 4, "cost=3 time=60") { // rows of given values: SUB lines
    Scratch d; std::unique_ptr<Engine> e(simple(2)); FldExporter x; x.setExportHeader(sx_choice("header", 2)); S t; char nm[8];
    for (int i = 0; i < SUB; ++i) { std::snprintf(nm, sizeof nm, "k%d", i); int k = sx_choice(nm, 6); std::snprintf(nm, sizeof nm, "x%d", i); S v = Op::str(sx_real(nm, 1, 50)); t += k == 0 ? v + " 2.5" : k == 1 ? "3 " + v : k == 2 ? S("# comment") : k == 3 ? S() : k == 4 ? S("a b o p") : v; if (i + 1 < SUB || sx_choice("end", 2)) t += "\n"; }
    S want, p = target(d, "data.fld"); bool bad = false, refused = false; try { std::istringstream is(t); want = x.toString(e.get(), is); } catch (fl::Exception&) { bad = true; }
    try { std::istringstream is(t); x.toFile(p, e.get(), is); } catch (fl::Exception&) { refused = true; } sx_check(refused == bad, "what cannot be written to a text cannot be written to a file"); if (!bad && !refused) sx_check(sameText(get(p), want), "the file holds the rows");
    std::istringstream is(t); sx_check(refuses([&] { x.toFile(d.denied(), e.get(), is); }), "a file that cannot be created is refused");
}
CASE(script, "real", 3, 3, "cost=3 time=60") {
    Scratch d; std::unique_ptr<Engine> e(simple(1 + sx_choice("inputs", 2))); RScriptExporter x; S p = target(d, "plot.R"); InputVariable *a = e->getInputVariable(0), *b = e->inputVariables().back();
    if (SUB == 0) { a->setRange(0, 1); dynamic_cast<Ramp*>(a->getTerm(0))->setEnd(2); dynamic_cast<Constant*>(e->getOutputVariable(0)->getTerm(0))->setValue(3); Exporter* y = &x; y->toFile(p, e.get()); sx_check(sameText(get(p), x.toString(e.get())), "the file holds the script of the first two variables"); sx_check(refuses([&] { y->toFile(d.denied(), e.get()); }), "a file that cannot be created is refused"); return; }
    std::vector<OutputVariable*> o(1 + sx_choice("outputs", 2), e->getOutputVariable(0)); if (o.size() > 1) o[1] = e->getOutputVariable(1);
    if (SUB == 1) { FldExporter::ScopeOfValues scope = sx_choice("scope", 2) ? FldExporter::AllVariables : FldExporter::EachVariable; int values = 1 + sx_choice("values", 3); x.toFile(p, e.get(), a, b, values, scope, o); sx_check(sameText(get(p), x.toString(e.get(), a, b, values, scope, o)), "the file holds the script"); sx_check(refuses([&] { x.toFile(d.denied(), e.get(), a, b, values, scope, o); }), "a file that cannot be created is refused"); }
    else { S t = Op::str(sx_real("v", 1, 50)) + " 2\n3 4\n"; std::istringstream is(t), js(t), ks(t); x.toFile(p, e.get(), a, b, is, o); sx_check(sameText(get(p), x.toString(e.get(), a, b, js, o)), "the file holds the script of the given data"); sx_check(refuses([&] { x.toFile(d.denied(), e.get(), a, b, ks, o); }), "a file that cannot be created is refused"); }
}
CASE(importers, "real", 3, 3, "cost=3 time=60") { // what is in the file is what is imported, whatever its line ends
    Scratch d; std::unique_ptr<Engine> e(simple(1)); FllExporter fll; FisExporter fis; FclExporter fcl; const Exporter* const xs[] = {&fll, &fis, &fcl}; FllImporter l; FisImporter s; FclImporter c; const Importer* const is[] = {&l, &s, &c}; S t = xs[SUB]->toString(e.get()), p = d.path("engine");
    int k = sx_choice("layout", 6); if (k == 0) while (!t.empty() && t[t.size() - 1] == '\n') t.erase(t.size() - 1); else if (k == 1) t += "\n\n"; else if (k == 2) t = "\n" + t; else if (k == 3) t = S(); else if (k == 4) { S u; for (size_t i = 0; i < t.size(); ++i) { if (t[i] == '\n') u += '\r'; u += t[i]; } t = u; } else t.erase(t.rfind("\n", t.size() / 2) + 4);
    put(p, t); std::unique_ptr<Engine> f, g; bool bf = false, bg = false; try { f.reset(is[SUB]->fromFile(p)); } catch (std::exception&) { bf = true; } try { g.reset(is[SUB]->fromString(t)); } catch (std::exception&) { bg = true; }
    sx_check(bf == bg, "a file is refused exactly if its text is"); if (!bf && !bg) sx_check(cmp::eqEngine(f.get(), g.get()), "a file gives the engine of its text"); sx_check(sameText(get(p), t), "the file stays as it was");
    S none = d.path("none"); bool refused = false; try { is[SUB]->fromFile(none); } catch (fl::Exception& ex) { refused = S(ex.what()).find(none) != S::npos; } sx_check(refused & !exists(none), "a file that is not there is refused by name");
}
CASE(bytes, "real", 3, 3, "cost=3 time=60") { // any bytes at the end of the file
    Scratch d; FllImporter l; FisImporter s; FclImporter c; const Importer* const is[] = {&l, &s, &c}; static const char* const base[] = {"Engine: e\nInputVariable: a", "[System]\nName='e'\n[Input1]\nName='a", "FUNCTION_BLOCK e\nVAR_INPUT\na: REAL;\nEND_VAR\nEND_FUNCTION_BLOCK"}; S t = base[SUB], p = d.path("engine");
    for (int i = 0, n = 1 + sx_choice("n", 2); i < n; ++i) { char ch = (char)sx_byte(i ? "c1" : "c0"); t += ch; } if (sx_choice("close", 2)) t += SUB == 1 ? "'\n" : "\n";
    put(p, t); std::unique_ptr<Engine> f, g; bool bf = false, bg = false; try { f.reset(is[SUB]->fromFile(p)); } catch (std::exception&) { bf = true; } try { g.reset(is[SUB]->fromString(t)); } catch (std::exception&) { bg = true; }
    sx_check(bf == bg, "a file is refused exactly if its text is"); if (!bf && !bg) sx_check(cmp::eqEngine(f.get(), g.get()), "a file gives the engine of its text");
}
struct Capture : Importer { // an importer of the user's own
    mutable S got; mutable int calls; Engine* e; Capture() : calls(0), e(0) { } S name() const { return "Capture"; } Capture* clone() const { return new Capture; }
    Engine* fromString(const S& t) const { got = t; ++calls; if (!e) throw fl::Exception("no engine"); return e; }
};
CASE(own, "real", 4, 4, "cost=2 time=60") { // importers of the user's own get the whole text, whatever its bytes
    Scratch d; Capture c; S t = SUB == 3 ? "first line\n\n  a line with blanks  \n" : SUB == 2 ? "x\n" : "", p = d.path("own"); for (int i = 0, n = SUB == 0 ? sx_choice("n", 2) : SUB; i < n; ++i) { char nm[8]; std::snprintf(nm, sizeof nm, "c%d", i); t += (char)sx_byte(nm); }
    put(p, t); Engine e("e"); c.e = sx_choice("engine", 2) ? &e : 0; Engine* r = 0; bool refused = false; try { r = c.fromFile(p); } catch (fl::Exception&) { refused = true; }
    S want = t; if (!want.empty() && want[want.size() - 1] != '\n') want += "\n"; sx_check(c.calls == 1 && sameText(c.got, want), "the text is that of the file, with a last newline"); sx_check(refused == !c.e && r == c.e, "the engine is the one imported from the text");
}
