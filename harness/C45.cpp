// Settings of exporters, importers and factories: what is set is what is used, in originals, copies and clones, and changing one changes no other.
// BOUNDS: engines of six kinds with any ranges in [1,50]; separators of any 1-2 bytes that the text does not hold, indents of 0-3 blanks and tabs; every history of 3 settings per exporter; colours of any 2 letters; seven factories
#include "compare.h"
#include "engines.h"
#include "files.h"
using namespace fl;
using namespace files;
namespace {
const char* const indents[] = {"", " ", "\t", "  ", " \t "};
S word(const char* n) { char b[16]; std::snprintf(b, sizeof b, "%s0", n); S t(1, (char)sx_int(b, 'a', 'z')); std::snprintf(b, sizeof b, "%s1", n); return t + (char)sx_int(b, 'a', 'z'); }
S relaid(const S& t, const S& sep, const S& in) { S r; for (size_t i = 0; i < t.size(); ++i) { if (t[i] == '\n') { r += sep; if (i + 2 < t.size() && t[i + 1] == ' ' && t[i + 2] == ' ') { r += in; i += 2; } } else r += t[i]; } return r; }
Engine* any(int kind) { Engine* e = sx::build(kind); e->getInputVariable(0)->setRange(-60, sx_real("hi", 1, 50)); e->setDescription("some text"); e->getInputVariable(0)->setDescription("of a"); e->getOutputVariable(0)->setDescription("of o"); e->getRuleBlock(0)->setDescription("of r"); return e; }
bool eqS(const S& a, const S& b) { bool r = a.size() == b.size(); for (size_t i = 0; r && i < a.size(); ++i) r = r & (a[i] == b[i]); return r; }
}
CASE(fll, "real", 6, 6, "cost=3 time=60") { // SUB: kind of engine
    std::unique_ptr<Engine> e(any(SUB)); FllExporter d; S text = d.toString(e.get()); int k = sx_choice("separator", 4); S sep = k == 0 ? S("\n") : k == 1 ? S(";") : k == 2 ? S("@@") : S(" | "), in = indents[sx_choice("indent", 5)]; FllExporter x(sx_choice("given", 2) ? in : S("xx"), "??"), y; x.setIndent(in); x.setSeparator(sep); y = x; std::unique_ptr<FllExporter> c(x.clone()); sx_check(d.getIndent() == "  " && d.getSeparator() == "\n" && x.getIndent() == in && x.getSeparator() == sep && y.getIndent() == in && c->getSeparator() == sep, "settings are those set"); S got = x.toString(e.get()); sx_check(sameText(got, relaid(text, sep, in)), "the text has the separator and indent set"); sx_check(sameText(y.toString(e.get()), got) & sameText(c->toString(e.get()), got) & sameText(d.toString(e.get()), text), "so do copies, and the others their own"); c->setIndent("zz"); y.setSeparator("zz"); sx_check(sameText(x.toString(e.get()), got), "changing a copy changes no other");
    FllImporter i(sep), j; sx_check(i.getSeparator() == sep && j.getSeparator() == "\n" && i.name() == "FllImporter" && x.name() == "FllExporter", "importers too"); std::unique_ptr<Engine> f(i.fromString(got)), g(j.fromString(text)); sx_check(cmp::eqEngine(f.get(), g.get()) & cmp::eqEngine(f.get(), e.get()), "an importer with the same separator reads it as the same engine"); j.setSeparator(sep); std::unique_ptr<FllImporter> l(j.clone()); l->setSeparator(l->getSeparator()); std::unique_ptr<Engine> h(l->fromString(got)); sx_check(l->getSeparator() == sep && cmp::eqEngine(h.get(), f.get()), "so does its clone");
}
CASE(separators, "real", 2, 2, "cost=3 time=60") { // any separator of SUB + 1 bytes that the text does not hold
    std::unique_ptr<Engine> e(new Engine("e")); InputVariable* v = new InputVariable("a", 0, 1); v->addTerm(new Ramp("t", 0, 1)); e->addInputVariable(v); S sep(1, (char)sx_byte("s0")); if (SUB) sep += (char)sx_byte("s1"); char c = sep[0]; bool free = (c != 0) & (c != '#') & (c != '\n') & (c != '\r') & (c != '\t') & (c != '\v') & (c != '\f') & (c != ' '); FllExporter d; S text = d.toString(e.get()); for (size_t i = 0; i < text.size(); ++i) free = free & (c != text[i]); if (SUB) free = free & (sep[1] != '#') & (sep[1] != '\n') & (sep[1] != c); sx_assume(free);
    FllExporter x; x.setSeparator(sep); S got = x.toString(e.get()); sx_check(eqS(got, relaid(text, sep, "  ")), "lines end with the separator"); std::unique_ptr<Engine> f(FllImporter(sep).fromString(got)); sx_check(cmp::eqEngine(f.get(), e.get()), "and are read back by it");
}
CASE(fcl, "real", 6, 6, "cost=3 time=60") {
    std::unique_ptr<Engine> e(any(SUB)); FclExporter d; S text = d.toString(e.get()), in = indents[sx_choice("indent", 5)]; FclExporter x(sx_choice("given", 2) ? in : S("xx")), y; x.setIndent(in); y = x; std::unique_ptr<FclExporter> c(x.clone()); sx_check(d.getIndent() == "  " && x.getIndent() == in && y.getIndent() == in && c->getIndent() == in && x.name() == "FclExporter", "settings are those set"); S got = x.toString(e.get()); sx_check(sameText(got, relaid(text, "\n", in)), "the text has the indent set"); sx_check(sameText(c->toString(e.get()), got) & sameText(y.toString(e.get()), got), "so do copies"); c->setIndent("zz"); sx_check(sameText(x.toString(e.get()), got) & sameText(d.toString(e.get()), text), "changing a copy changes no other");
    FclImporter i; std::unique_ptr<FclImporter> j(i.clone()); std::unique_ptr<Engine> f(i.fromString(text)), g(j->fromString(got)); sx_check(i.name() == "FclImporter" && j->name() == "FclImporter" && cmp::eqEngine(f.get(), g.get()), "it is read alike");
}
CASE(fis, "real", 6, 6, "cost=2 time=60") { std::unique_ptr<Engine> e(any(SUB)); if (e->numberOfRuleBlocks() > 1) { sx_check(true, "the format has one block"); return; } FisExporter x; std::unique_ptr<FisExporter> c(x.clone()); FisImporter i; std::unique_ptr<FisImporter> j(i.clone()); sx_check(x.name() == "FisExporter" && c->name() == "FisExporter" && i.name() == "FisImporter" && j->name() == "FisImporter", "names"); S t = x.toString(e.get()); sx_check(sameText(c->toString(e.get()), t), "clones write the same"); std::unique_ptr<Engine> f(i.fromString(t)), g(j->fromString(t)); sx_check(cmp::eqEngine(f.get(), g.get()), "and read the same"); }
CASE(programs, "real", 2, 2, "cost=3 time=60") { // SUB: C++, Java; any history of 3 settings
    std::unique_ptr<Engine> e(any(sx_choice("kind", 3) * 2)); bool ns = sx_choice("ns", 2), names = sx_choice("names", 2);
    if (SUB == 0) { CppExporter x(ns, names); for (int i = 0; i < 3; ++i) { char b[8]; std::snprintf(b, sizeof b, "s%d", i); int s = sx_choice(b, 5); if (s < 2) x.setUsingNamespace(ns = s); else if (s < 4) x.setUsingVariableNames(names = s == 3); else { CppExporter z(x); x = z; } } sx_check(x.isUsingNamespace() == ns && x.isUsingVariableNames() == names && x.name() == "CppExporter", "settings are those set last"); std::unique_ptr<CppExporter> c(x.clone()); S t = x.toString(e.get()); sx_check(sameText(t, CppExporter(ns, names).toString(e.get())), "the program follows them"); c->setUsingNamespace(!ns); sx_check(c->isUsingVariableNames() == names && sameText(c->toString(e.get()), CppExporter(!ns, names).toString(e.get())) && sameText(x.toString(e.get()), t), "changing a clone changes no other"); std::unique_ptr<Engine> g(sx::build(sx::MAMDANI)); t = CppExporter(ns, names).toString(g.get()); sx_check((t.find("fl::Engine") != S::npos) == ns && (t.find("using namespace") != S::npos) == !ns, "with or without namespace"); sx_check((t.find("InputVariable* a = ") != S::npos) == names && (t.find("InputVariable* inputVariable1 = ") != S::npos) == !names, "with or without names"); }
    else { JavaExporter x(names); for (int i = 0; i < 3; ++i) { char b[8]; std::snprintf(b, sizeof b, "s%d", i); int s = sx_choice(b, 3); if (s < 2) x.setUsingVariableNames(names = s); else { JavaExporter z(x); x = z; } } sx_check(x.isUsingVariableNames() == names && x.name() == "JavaExporter", "settings are those set last"); std::unique_ptr<JavaExporter> c(x.clone()); S t = x.toString(e.get()); sx_check(sameText(t, JavaExporter(names).toString(e.get())), "the program follows them"); c->setUsingVariableNames(!names); sx_check(sameText(c->toString(e.get()), JavaExporter(!names).toString(e.get())) && sameText(x.toString(e.get()), t), "changing a clone changes no other"); std::unique_ptr<Engine> g(sx::build(sx::MAMDANI)); t = JavaExporter(names).toString(g.get()); sx_check((t.find("InputVariable a = ") != S::npos) == names && (t.find("InputVariable inputVariable1 = ") != S::npos) == !names, "with or without names"); }
}
CASE(colours, "real", 1, 1, "cost=2 time=60") {
    RScriptExporter x; S lo = "yellow", hi = "red", co = "black"; sx_check(x.getMinimumColor() == lo && x.getMaximumColor() == hi && x.getContourColor() == co && x.name() == "RScriptExporter", "the default colours"); for (int i = 0; i < 2; ++i) { int s = sx_choice(i ? "s1" : "s0", 3); S w = word(i ? "w1" : "w0"); if (s == 0) x.setMinimumColor(lo = w); else if (s == 1) x.setMaximumColor(hi = w); else x.setContourColor(co = w); } sx_check(eqS(x.getMinimumColor(), lo) & eqS(x.getMaximumColor(), hi) & eqS(x.getContourColor(), co), "are those set last"); std::unique_ptr<RScriptExporter> c(dynamic_cast<RScriptExporter*>(static_cast<Exporter&>(x).clone())); c->setMinimumColor("none"); sx_check(eqS(x.getMinimumColor(), lo) & eqS(c->getMaximumColor(), hi) & eqS(c->getContourColor(), co) & eqS(c->getMinimumColor(), "none"), "clones have their own");
    std::unique_ptr<Engine> e(sx::build(sx::SUGENO)); std::ostringstream w, v; InputVariable *a = e->getInputVariable(0), *b = e->getInputVariable(1); x.writeScriptExportingDataFrame(e.get(), w, a, b, 4, FldExporter::AllVariables, e->outputVariables()); S t = w.str(); S want[] = {lo, hi, co}; for (int i = 0; i < 3; ++i) { S q = "\"" + want[i] + "\""; bool in = false; for (size_t j = 0; j + q.size() <= t.size(); ++j) { bool m = true; for (size_t n = 0; n < q.size(); ++n) m = m & (t[j + n] == q[n]); in = in | m; } sx_check(in, "the plots have the colours set"); }
}
CASE(data, "real", 3, 3, "cost=3 time=60") { // SUB: first setting; any history of 3 settings
    std::unique_ptr<Engine> e(sx::build(sx::SUGENO)); e->getInputVariable(0)->setRange(-60, sx_real("hi", 1, 50)); bool h = true, in = true, out = true; S sep = " "; FldExporter x; for (int i = 0; i < 3; ++i) { char b[8]; std::snprintf(b, sizeof b, "s%d", i); int s = i ? sx_choice(b, 4) : SUB; std::snprintf(b, sizeof b, "v%d", i); bool v = sx_choice(b, 2); if (s == 0) x.setExportHeader(h = v); else if (s == 1) x.setExportInputValues(in = v); else if (s == 2) x.setExportOutputValues(out = v); else x.setSeparator(sep = v ? "," : "; "); } sx_check(x.exportsHeader() == h && x.exportsInputValues() == in && x.exportsOutputValues() == out && x.getSeparator() == sep && x.name() == "FldExporter", "settings are those set last"); FldExporter y(x); std::unique_ptr<FldExporter> c(x.clone()); S t = x.toString(e.get(), 2, FldExporter::EachVariable); y.setExportHeader(!h); y.setSeparator("|"); sx_check(sameText(c->toString(e.get(), 2, FldExporter::EachVariable), t) & sameText(x.toString(e.get(), 2, FldExporter::EachVariable), t) & (c->getSeparator() == sep) & (c->exportsHeader() == h) & (y.exportsInputValues() == in), "copies have their own");
    S head; if (h) { head = (in ? S("a") + sep + "b" : S()) + (in && out ? sep : S()) + (out ? S("o") : S()); if (in || out) sx_check(t.substr(0, head.size() + 1) == head + "\n", "the header names what is written"); } size_t lines = 0; for (size_t i = 0; i < t.size(); ++i) lines += t[i] == '\n'; sx_check(lines == 4u + h, "with the rows"); 
}
namespace {
template <class T> void factory(ConstructionFactory<T*>& f, const char* name, const char* key) {
    S k(1, (char)sx_int("k", 'A', 'Z')); std::unique_ptr<ConstructionFactory<T*> > c(f.clone()); sx_check(f.name() == name && c->name() == name, "clones have the name"); std::vector<S> all = f.available(); sx_check(c->available() == all && c->constructors().size() == all.size(), "and the constructors"); f.registerConstructor(k, f.getConstructor(key)); sx_check(f.constructors().size() == all.size() + 1 && c->constructors().size() == all.size() && !c->hasConstructor(k) && f.constructors()[k] == f.constructors()[key], "changing one changes no other"); std::unique_ptr<T> a(f.constructObject(k)), b(c->constructObject(key)); sx_check(a.get() && b.get() && a->className() == b->className(), "both construct"); c->constructors().erase(key); sx_check(!c->hasConstructor(key) && f.hasConstructor(key), "the constructors are its own");
}
}
CASE(factories, "real", 7, 7, "cost=2 time=60") { // SUB: factory
    switch (SUB) { case 0: { TNormFactory f; factory<TNorm>(f, "TNorm", "Minimum"); break; } case 1: { SNormFactory f; factory<SNorm>(f, "SNorm", "Maximum"); break; } case 2: { DefuzzifierFactory f; factory<Defuzzifier>(f, "Defuzzifier", "Centroid"); break; } case 3: { ActivationFactory f; factory<Activation>(f, "Activation", "General"); break; } case 4: { TermFactory f; factory<Term>(f, "Term", "Ramp"); break; }
    case 5: { HedgeFactory f; std::unique_ptr<ConstructionFactory<Hedge*> > c(f.clone()); S k(1, (char)sx_int("k", 'A', 'Z')); f.registerConstructor(k, f.getConstructor("very")); sx_check(f.name() == "Hedge" && c->name() == "Hedge" && f.hasConstructor(k) && !c->hasConstructor(k) && c->hasConstructor("very") && c->constructors().size() + 1 == f.constructors().size(), "changing one changes no other"); std::unique_ptr<Hedge> h(f.constructObject(k)); sx_check(h->name() == "very", "both construct"); break; }
    default: { FunctionFactory f, g; S k(1, (char)sx_int("k", 'A', 'Z')); f.registerObject(k, f.cloneObject("max")); g.deregisterObject("min"); std::unique_ptr<CloningFactory<Function::Element*> > c(f.clone()); sx_check(f.name() == c->name() && c->hasObject(k) && c->getObject(k) != f.getObject(k) && c->available() == f.available(), "clones have their own objects"); g.registerObject("zz", f.cloneObject("min")); g = f; sx_check(!g.hasObject("zz") && g.available() == f.available() && g.name() == f.name() && g.getObject(k) != f.getObject(k) && g.hasObject("min"), "so have assigned ones"); f.deregisterObject(k); sx_check(!f.hasObject(k) && g.hasObject(k) && c->hasObject(k), "changing one changes no other"); scalar x = sx_real("x", -5, 5), y = sx_real("y", -5, 5); sx_check((g.getObject(k)->binary(x, y) == mx(x, y)) & (c->getObject(k)->binary(x, y) == mx(x, y)), "all compute"); } }
}
