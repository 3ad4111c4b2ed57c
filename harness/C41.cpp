// Command line: options are understood or refused; a file is converted to exactly what the importer and exporter make of it; the interactive console evaluates the engine on the typed values.
// BOUNDS: 0-3 pairs of options with any of the 11 keys, any other key of 1-2 printable bytes and any order; 3 input formats, 7 output formats given by option or extension; every way of exporting data (given rows, grids of both scopes, with and without header and inputs); both built-in examples; values in [1,50]
// BOUNDS: interactive: sessions of up to 4 (thorough: 5) steps out of typed numbers (any value), blanks and commands, and of up to 3 keys of any value, then quit, end of file or end of transmission; 1-3 inputs, an output that does not keep its previous value (see the finding of C19)
// BOUNDS: benchmarks of 1-2 engines with 1-2 runs (measured times are not judged)
// ASSUME: standard output and files are streams over memory in the symbolic build; replays use a scratch directory
#include "compare.h"
#include "engines.h"
#include "files.h"
#include <iostream>
using namespace fl;
using namespace files;
namespace {
struct Out { std::ostringstream text; std::streambuf* old; Out() : old(std::cout.rdbuf(text.rdbuf())) { } ~Out() { std::cout.rdbuf(old); } }; // what goes to standard output
struct Tool : Console {
    typedef std::map<S, S> Options; std::vector<int> keys; size_t read; Tool() : read(0) { }
    using Console::parse; using Console::process; using Console::interactive; using Console::benchmark; using Console::benchmarks;
    int readCharacter() { return read < keys.size() ? keys[read++] : (++read, EOF); }
    void type(const S& t) { for (size_t i = 0; i < t.size(); ++i) keys.push_back((unsigned char)t[i]); }
};
struct Settings { int decimals; bool logging; Settings() : decimals(fl::fuzzylite::decimals()), logging(fl::fuzzylite::isLogging()) { } ~Settings() { fl::fuzzylite::setDecimals(decimals); fl::fuzzylite::setLogging(logging); } };
const char* const optionKeys[] = {"-i", "-if", "-o", "-of", "-example", "-decimals", "-d", "-values", "-scope", "-dheader", "-dinputs"};
Engine* simple(int inputs) {
    Engine* e = new Engine("e"); static const char* const n[] = {"a", "b", "c"};
    for (int i = 0; i < inputs; ++i) { InputVariable* v = new InputVariable(n[i], 1, 2); v->addTerm(new Rectangle("t", 2, 100)); e->addInputVariable(v); }
    OutputVariable* o = new OutputVariable("o", -fl::inf, fl::inf); std::vector<scalar> c; for (int i = 0; i < inputs; ++i) c.push_back(i + 1.0); c.push_back(1000); o->addTerm(new Linear("l", c, e)); o->setDefuzzifier(new WeightedAverage("TakagiSugeno")); o->setDefaultValue(7); e->addOutputVariable(o);
    RuleBlock* b = new RuleBlock("r"); b->setActivation(new General); b->addRule(Rule::parse("if a is t then o is l", e)); e->addRuleBlock(b); return e;
}
int run(const std::vector<S>& a) { std::vector<const char*> v; for (size_t i = 0; i < a.size(); ++i) v.push_back(a[i].c_str()); return Console::main((int)v.size(), v.data()); }
}
CASE(parse, "real", 4, 4, "cost=3 time=60") { // SUB pairs
    Tool t; std::vector<S> a(1, "fuzzylite"), k, v; bool odd = sx_choice("odd", 2), bad = false; char nm[8];
    for (int i = 0; i < SUB; ++i) { std::snprintf(nm, sizeof nm, "k%d", i); int c = sx_choice(nm, SUB < 3 ? 12 : 4); S key; if (SUB == 3 && c < 3) c = c == 0 ? 0 : c == 1 ? 2 : 7; if (c < 11 && !(SUB == 3 && c == 3)) key = optionKeys[c]; else { std::snprintf(nm, sizeof nm, "b%d", i); key = S(1, (char)sx_int(nm, 33, 126)); if (i == 0 && sx_choice("dash", 2)) key = "-" + key; }
        bool known = false; for (int j = 0; j < 11; ++j) known = known || key == optionKeys[j]; bad = bad || !known; k.push_back(key); v.push_back(S(1, (char)('p' + i))); a.push_back(key); a.push_back(v.back()); }
    if (odd) a.push_back("-i"); std::vector<const char*> p; for (size_t i = 0; i < a.size(); ++i) p.push_back(a[i].c_str());
    std::map<S, S> want, got; for (int i = 0; i < SUB; ++i) want[k[i]] = v[i]; bool files = want.size() == 1 && k[0][0] != '-', refused = false; if (files) { S in = k[0], out = want[k[0]]; want["-i"] = in; want["-o"] = out; }
    try { got = t.parse((int)p.size(), p.data()); } catch (fl::Exception&) { refused = true; }
    sx_check(refused == (odd || (bad && want.size() > 1 && !files)), "options without value and unknown ones are refused"); if (refused || odd) return;
    bool ok = got.size() == want.size(); for (std::map<S, S>::iterator i = want.begin(); i != want.end(); ++i) ok = ok && got.count(i->first) && got[i->first] == i->second; sx_check(ok, "options have the values given last; two files are input and output");
}
CASE(options, "real", 1, 1, "cost=1 time=30") { // the help tells about every option
    Tool t; std::vector<Console::Option> o = t.availableOptions(); S u = t.usage(); std::map<S, int> seen; bool ok = o.size() == 11; int at = sx_choice("at", 11); for (size_t i = 0; i < o.size(); ++i) { ++seen[o[i].key]; ok = ok && !o[i].value.empty() && !o[i].description.empty() && u.find(o[i].key) != S::npos && u.find(o[i].description) != S::npos; } sx_check(ok && seen[optionKeys[at]] == 1, "every option is explained once");
    Settings s; Out out; std::vector<S> a(1, "fuzzylite"); if (sx_choice("word", 2)) a.push_back("-h"); int rc = run(a); sx_check(rc == 0 && out.text.str() == u + "\n\n", "the usage is shown without options");
}
CASE(convert, "real", 24, 24, "cost=3 time=60") { // SUB: input format, output format
    Settings st; Scratch d; Out out; int in = SUB / 8, of = SUB % 8; static const char* const fi[] = {"fll", "fis", "fcl"}; static const char* const fo[] = {"fll", "fis", "fcl", "cpp", "java", "fld", "R", "x"}; FllExporter fll; FisExporter fis; FclExporter fcl; CppExporter cpp; JavaExporter java; FllImporter l; FisImporter s; FclImporter c; const Exporter* const xs[] = {&fll, &fis, &fcl, &cpp, &java}; const Importer* const is[] = {&l, &s, &c};
    std::unique_ptr<Engine> e(simple(2)); e->getInputVariable(0)->setRange(1, sx_real("max", 1, 50)); dynamic_cast<Rectangle*>(e->getInputVariable(1)->getTerm(0))->setStart(sx_real("start", 1, 50)); S text = xs[in]->toString(e.get());
    bool ext = sx_choice("ext", 2), std = sx_choice("stdout", 2), sep = sx_choice("main", 2), coarse = sx_choice("coarse", 2); S i = d.path(ext ? S("a.b.") + fi[in] : "in"), o = std ? S() : d.path(ext ? S("o.p.") + fo[of] : "out"); put(i, text); if (!std) put(o, S(9000, '#'));
    std::vector<S> a(1, "fuzzylite"); a.push_back("-i"); a.push_back(i); if (!std) { a.push_back("-o"); a.push_back(o); } if (!ext) { a.push_back("-if"); a.push_back(fi[in]); } if (!ext || std) { a.push_back("-of"); a.push_back(fo[of]); } if (coarse) { a.push_back("-decimals"); a.push_back("5"); } if (of == 5) { a.push_back("-values"); a.push_back("2"); }
    int rc = 0; if (sep) rc = run(a); else { std::vector<const char*> p; for (size_t j = 0; j < a.size(); ++j) p.push_back(a[j].c_str()); Tool t; try { t.process(t.parse((int)p.size(), p.data())); } catch (fl::Exception&) { rc = 1; } }
    S got = std ? out.text.str() : get(o); sx_check(fl::fuzzylite::decimals() == (coarse ? 5 : 3), "the number of decimals is the given one");
    if (of > 5) { sx_check(rc == 1, "formats that cannot be written are refused"); return; }
    std::unique_ptr<Engine> f(is[in]->fromString(text)); sx_check(rc == 0, "formats are understood"); if (rc) return; sx_check(sameText(got, of == 5 ? FldExporter().toString(f.get(), 2, FldExporter::EachVariable) : xs[of]->toString(f.get())), "the output is what the exporter makes of what the importer reads");
}
CASE(short, "real", 1, 1, "cost=2 time=30") { // fuzzylite inputfile outputfile
    Settings st; Scratch d; Out out; std::unique_ptr<Engine> e(simple(1)); e->getInputVariable(0)->setMaximum(sx_real("max", 1, 50)); S i = d.path("in.fll"), o = d.path(sx_choice("o", 2) ? "out.fcl" : "out.fll"), j = d.path("none.fll"); S text = FllExporter().toString(e.get()); put(i, text); std::vector<S> a(1, "fuzzylite"); int k = sx_choice("k", 4); a.push_back(k == 1 ? j : i); a.push_back(k == 2 ? d.denied() + ".fll" : k == 3 ? S("word") : o);
    int rc = run(a); std::unique_ptr<Engine> f(FllImporter().fromString(text)); sx_check(rc == (k > 0), "files that cannot be opened or have no format are refused"); if (k == 0) sx_check(sameText(get(o), o.find(".fcl") != S::npos ? FclExporter().toString(f.get()) : FllExporter().toString(f.get())), "two files are converted by their extensions"); sx_check(sameText(get(i), text), "the input stays as it was");
}
CASE(data, "real", 4, 4, "cost=3 time=60") { // exporting data: SUB: rows given, grid, grid with scope, errors
    Settings st; Scratch d; Out out; std::unique_ptr<Engine> e(simple(2)); e->getInputVariable(0)->setMaximum(sx_real("max", 2, 50)); S i = d.path("in.fll"), o = d.path("out.fld"), g = d.path("data.fld"); S text = FllExporter().toString(e.get()); put(i, text); std::unique_ptr<Engine> f(FllImporter().fromString(text)); FldExporter x(" "); Tool t; Tool::Options q; q["-i"] = i; q["-o"] = o; bool refused = false;
    int h = sx_choice("header", 3), n = sx_choice("inputs", 3); if (h) { q["-dheader"] = h == 1 ? "true" : n == 1 ? "no" : "false"; x.setExportHeader(h == 1); } if (n) { q["-dinputs"] = n == 1 ? "true" : h == 1 ? "no" : "false"; x.setExportInputValues(n == 1); } S want; bool bad = false;
    if (SUB == 0) { S rows; for (int r = 0, m = sx_choice("rows", 2); r <= m; ++r) { int k = sx_choice(r ? r == 1 ? "k1" : "k2" : "k0", 4); rows += k == 0 ? Op::str(sx_real(r ? r == 1 ? "v1" : "v2" : "v0", 1, 50)) + " 3\n" : k == 1 ? "# c\n" : k == 2 ? "\n" : "4\n"; } put(g, rows); q["-d"] = g; if (sx_choice("both", 2)) q["-values"] = "3"; std::istringstream s(rows); try { want = x.toString(f.get(), s); } catch (fl::Exception&) { bad = true; } }
    else if (SUB < 3) { int v = 1 + sx_choice("values", 5), s = SUB == 1 ? 0 : 1 + sx_choice("scope", 2); q["-values"] = Op::str(v); if (s) q["-scope"] = s == 1 ? "EachVariable" : "AllVariables"; want = x.toString(f.get(), v, s == 2 ? FldExporter::AllVariables : FldExporter::EachVariable); }
    else { bad = true; int k = sx_choice("error", 3); if (k == 0) q["-d"] = d.path("none"); else { q["-values"] = k == 1 ? "x" : "3"; q["-scope"] = "Each"; } }
    try { t.process(q); } catch (std::exception&) { refused = true; } sx_check(refused == bad, "data that cannot be read and unknown scopes are refused"); if (!bad && !refused) sx_check(sameText(get(o), want), "the output is the data the exporter writes");
}
CASE(errors, "real", 1, 1, "cost=2 time=30") {
    Settings st; Scratch d; Out out; S i = d.path("in.fll"); put(i, "Engine: e\n"); Tool t; Tool::Options q; q["-o"] = d.path("o.fll"); int k = sx_choice("k", 6); if (k == 1) q["-i"] = d.path("none.fll"); else if (k) q["-i"] = i; if (k == 2) q["-if"] = "FLL"; if (k == 3) { S j = d.path("x"); put(j, "Engine: e\n"); q["-i"] = S(j); bool dot = j.find('.') != S::npos; if (dot) return; } if (k == 4) q["-example"] = S(1, (char)sx_int("letter", 'a', 'z')); if (k == 5) { q.erase("-o"); q["-of"] = "fll"; }
    bool ok = k == 5 || (k == 4 && (q["-example"] == "m" || q["-example"] == "t")), refused = false; try { t.process(q); } catch (fl::Exception&) { refused = true; } sx_check(refused == !ok, "missing, unreadable and unknown inputs are refused");
    if (k == 5 && !refused) sx_check(out.text.str() == FllExporter().toString(std::unique_ptr<Engine>(FllImporter().fromString("Engine: e\n")).get()), "without output file the text goes to standard output");
}
CASE(examples, "real", 2, 2, "cost=2 time=60") {
    Settings st; Scratch d; Out out; Tool t; Tool::Options q; S o = d.path("o.fll"); q["-o"] = o; static const char* const w[2][3] = {{"m", "mamdani", "m"}, {"t", "ts", "takagi-sugeno"}}; q["-example"] = w[SUB][sx_choice("word", 3)]; if (sx_choice("of", 2)) q["-of"] = "fll"; t.process(q); std::unique_ptr<Engine> e(SUB ? Console::takagiSugeno() : Console::mamdani()), f(FllImporter().fromFile(o)); sx_check(sameText(get(o), FllExporter().toString(e.get())), "the example is written");
    S why; sx_check(f->isReady(&why) && e->isReady(&why) && e->type() == (SUB ? Engine::TakagiSugeno : Engine::Mamdani), "the example is complete and of its type"); scalar x = SUB ? sx_real("x", 0.125, 9.875) : sx_real("x", 0.25, 0.75); e->getInputVariable(0)->setValue(x); if (SUB) e->process(); else { e->getOutputVariable(0)->setDefuzzifier(new Centroid(3)); e->process(); } sx_check(e->getOutputVariable(0)->getValue() == e->getOutputVariable(0)->getValue(), "the example has a value in its range");
    std::unique_ptr<Engine> h(Console::hybrid()); sx_check(h->isReady(&why) && h->numberOfOutputVariables() == 2 && h->numberOfRuleBlocks() == 2, "the hybrid example is complete");
}
// ---- the interactive console ----
namespace {
// without the messages: '#[...]' and '#...' up to the end of the line
S plain(const S& t) { S r; for (size_t i = 0; i < t.size(); ++i) { if (t[i] == '#') { bool box = i + 1 < t.size() && t[i + 1] == '['; while (i < t.size() && t[i] != (box ? ']' : '\n')) ++i; } else r += t[i]; } return r; }
bool delim(char c) { return (c == '\t') | (c == '\n') | (c == '>') | (c == '=') | (c == '[') | (c == ']'); }
bool word(const S& a, const S& b) { bool x = false, y = false; if (a.empty() || b.empty()) return a.empty() && b.empty(); scalar u = Op::toScalar(a, fl::nan, &x), v = Op::toScalar(b, fl::nan, &y); return x == y && (x ? cmp::eq(u, v) : sameText(a, b)); }
bool sameTranscript(const S& a, const S& b) { size_t i = 0, j = 0; bool ok = true; for (;;) { S u, v; while (i < a.size() && !delim(a[i])) u += a[i++]; while (j < b.size() && !delim(b[j])) v += b[j++]; if (u.empty() != v.empty()) return false; ok = ok & word(u, v); if (i >= a.size() || j >= b.size()) return ok & (i >= a.size()) & (j >= b.size()); if (a[i] != b[j]) return false; ++i; ++j; } }
// what the console is to do with the keys: restart and discard (R), discard (D), process (P), help (H), quit (Q), values between blanks
struct Model { Engine* e; std::vector<S> typed; S text, out; bool done; std::vector<scalar> v; size_t used; Model(Engine* x) : e(x), out(">"), done(false), used(0) { }
    void process() { size_t n = e->numberOfInputVariables(); for (size_t i = 0; i < v.size(); ++i) e->getInputVariable(i)->setValue(v[i]); for (size_t i = v.size(); i < n; ++i) out += Op::str(e->getInputVariable(i)->getValue()) + "\t"; e->process(); out += "=\t" + Op::str(e->getOutputVariable(0)->getValue()) + "\n>"; v.clear(); text = ""; }
    void blank() { bool ok = false; scalar x = Op::toScalar(text, fl::nan, &ok); if (!ok) { x = e->getInputVariable(v.size())->getValue(); out += "[" + Op::str(x) + "]"; } out += "\t"; text = ""; v.push_back(x); if (v.size() == e->numberOfInputVariables()) process(); }
    void key(int c) { if (done) return; ++used; if (c == EOF || c == 4) { done = true; return; } if (c == ' ' || (c >= 9 && c <= 13)) { blank(); return; } if (c <= 32 || c >= 127) return;
        if (c == 'r' || c == 'R') { e->restart(); v.clear(); text = ""; out += "\n>"; } else if (c == 'd' || c == 'D') { v.clear(); text = ""; out += "\n>"; } else if (c == 'p' || c == 'P') process(); else if (c == 'q' || c == 'Q') done = true; else if (c == 'h' || c == 'H') { out += "\n>\n>"; text = ""; } else { text += (char)c; out += (char)c; } }
    void number(const S& t) { if (done) return; used += t.size(); text += t; out += t; } };
void finish(Tool& t, Model& m, Engine* e, Engine* f) {
    Out out; std::ostringstream w; t.interactive(w, e); S a = w.str(), b = out.text.str();
 sx_check(t.read == m.used, "the session ends with quit, end of transmission or end of input");
    sx_check(!a.empty() && a[a.size() - 1] == '\n' && sameText(a.substr(0, a.size() - 1), b), "standard output shows what is written"); sx_check(sameTranscript(plain(b), m.out), "values and results are shown");
    bool ok = cmp::eq(e->getOutputVariable(0)->getValue(), f->getOutputVariable(0)->getValue()); for (size_t i = 0; i < e->numberOfInputVariables(); ++i) ok = ok & cmp::eq(e->getInputVariable(i)->getValue(), f->getInputVariable(i)->getValue()); sx_check(ok, "the engine has the values typed and their results");
}
}
CASE(session, "real", 9, 9, "cost=5 time=150") { // SUB: inputs, first step
    int n = SUB % 3 + 1; std::unique_ptr<Engine> e(simple(n)), f(simple(n)); Tool t; Model m(f.get()); char nm[8]; bool number = false, upper = sx_choice("upper", 2); if (upper) { e->getInputVariable(0)->setValue(2.5); f->getInputVariable(0)->setValue(2.5); }
    for (int i = 0, steps = THOROUGH ? 5 : 4; i < steps; ++i) { std::snprintf(nm, sizeof nm, "s%d", i); int k = i == 0 ? (SUB / 3 == 0 ? 7 : SUB / 3 == 1 ? 4 : 0) : sx_choice(nm, number ? 6 : 8);
        if (k == 7) { std::snprintf(nm, sizeof nm, "v%d", i); scalar v = sx_real(nm, 1, 50); crisp(v, 2); S s = Op::str(v); t.type(s); m.number(s); number = true; continue; }
        static const char c[] = {' ', '\n', 'p', 'd', 'R', 'h'}; if (k == 6) { t.type("7"); m.number("7"); number = true; continue; } int ch = c[k]; if (k == 2 && number) { sx_check(true, "the missing values would follow the text typed"); return; } if (upper && ch > 'Z') ch -= 32; t.keys.push_back(ch); m.key(ch); number = false; }
    int end = sx_choice("end", 2) ? upper ? 'Q' : 'q' : upper ? EOF : 4; if (end != EOF) t.keys.push_back(end); m.key(end); finish(t, m, e.get(), f.get());
}
CASE(keys, "real", 3, 3, "cost=6 time=150") { // SUB + 1 keys of any value, after some typed text
    int n = 1 + sx_choice("inputs", 2); std::unique_ptr<Engine> e(simple(n)), f(simple(n)); Tool t; Model m(f.get()); char nm[8]; static const char* const pre[] = {"", "4", "3 ", "3 7"}; S p = pre[SUB == 2 ? sx_choice("typed", 2) : sx_choice("typed", 4)]; t.type(p); for (size_t i = 0; i < p.size(); ++i) m.key(p[i]);
    for (int i = 0; i < SUB + 1; ++i) { std::snprintf(nm, sizeof nm, "c%d", i); int c = i == 2 ? " ph"[sx_choice("c2", 3)] : sx_int(nm, 0, 255); sx_assume((c < '#') | (c > '#')); sx_assume((c != '>') & (c != '=') & (c != '[') & (c != ']')); if (!m.text.empty()) sx_assume((c != 'p') & (c != 'P')); t.keys.push_back(c); m.key(c); }
    if (!m.text.empty()) { t.keys.push_back('h'); m.key('h'); } t.keys.push_back('p'); m.key('p'); m.key(EOF); finish(t, m, e.get(), f.get());
}
CASE(console, "real", 2, 2, "cost=2 time=60") { // the console is what exporting data without rows and grid starts
    Settings st; Scratch d; Out out; std::unique_ptr<Engine> e(simple(1)); S i = d.path("in.fll"), o = d.path("out.fld"); put(i, FllExporter().toString(e.get())); Tool t; Tool::Options q; q["-i"] = i; q["-of"] = "fld"; if (SUB) q["-o"] = o; scalar v = sx_real("v", 1, 50); crisp(v, 2); t.type(Op::str(v) + " p");
    t.process(q); S got = SUB ? get(o) : out.text.str(); S head; size_t p = got.find("a o\n"); sx_check(p != S::npos, "the header names inputs and outputs"); if (p == S::npos) return; S rest = plain(got.substr(p + 4)); scalar w = v >= 2 ? 1000 + v : 7; S want = ">" + Op::str(v) + "\t=\t" + Op::str(w) + "\n>=\t" + Op::str(w) + "\n>\n"; Model m(e.get()); m.number(Op::str(v)); m.key(' '); m.key('p'); sx_check(sameTranscript(rest, m.out + "\n"), "the session follows"); if (SUB) sx_check(sameText(got.substr(0, got.size() - 1), out.text.str()), "standard output shows what is written");
}
CASE(benchmarks, "real", 2, 2, "cost=3 time=60") { // benchmark and benchmarks
    Settings st; Scratch d; Out out; char nm[8]; S list, data; int n = SUB ? 1 + sx_choice("engines", 2) : 1, runs = 1 + sx_choice("runs", 2); S fll[2], fld[2];
    for (int k = 0; k < n; ++k) { std::unique_ptr<Engine> e(simple(1)); e->setName(k ? "second" : "first"); fll[k] = d.path(k ? "f.fll" : "e.fll"); fld[k] = d.path(k ? "f.fld" : "e.fld"); put(fll[k], FllExporter().toString(e.get())); std::snprintf(nm, sizeof nm, "v%d", k); scalar v = sx_real(nm, 3, 50); put(fld[k], "a o\n" + Op::str(v) + " 7\n1.5 7\n"); list += fll[k] + "\n"; data += fld[k] + "\n"; if (k == 0 && sx_choice("comment", 2)) { list += sx_choice("blank", 2) ? "\n" : "# x\n"; data += "# y\n"; } }
    S a = d.path("list"), b = d.path("data"), o = d.path("out.tsv"); put(a, list); put(b, data); bool file = sx_choice("file", 2); int bad = sx_choice("bad", 4); std::vector<S> arg; arg.push_back("fuzzylite"); arg.push_back(SUB ? "benchmarks" : "benchmark"); arg.push_back(bad == 1 ? d.path("none") : SUB ? a : fll[0]); arg.push_back(bad == 2 ? d.path("none2") : SUB ? b : fld[0]); if (bad != 3) arg.push_back(Op::str(runs)); if (file && bad != 3) arg.push_back(o);
    int rc = run(arg); sx_check(rc == (bad > 0), "missing files and parameters are refused"); if (bad) return; std::vector<S> l = Op::split(file ? get(o) : out.text.str(), "\n"); std::vector<std::vector<S> > rows; for (size_t i = 0; i < l.size(); ++i) { std::vector<S> c = Op::split(l[i], "\t"); if (c.size() > 3) rows.push_back(c); }
    bool ok = (int)rows.size() == n + 1; for (size_t i = 1; i < rows.size(); ++i) ok = ok && rows[i].size() == rows[0].size() && rows[i][1] == (i == 1 ? "first" : "second"); sx_check(ok, "a header and a row for each engine with a value for each column"); if (!ok) return;
    std::vector<S> h = Benchmark().header(runs, true); ok = h.size() == rows[0].size(); for (size_t i = 0; ok && i < h.size(); ++i) { ok = rows[0][i] == h[i]; for (int k = 1; k <= n && ok; ++k) { const S& c = rows[k][i]; if (h[i] == "runs") ok = Op::toScalar(c) == runs; else if (h[i] == "inputs" || h[i] == "outputs" || h[i] == "ruleBlocks" || h[i] == "rules") ok = Op::toScalar(c) == 1; else if (h[i] == "evaluations") ok = Op::toScalar(c) == 2; else if (h[i] == "errors" || h[i] == "accErrors") ok = Op::toScalar(c) == 1; } } sx_check(ok, "rows tell runs, sizes, evaluations and errors");
}
CASE(decimals, "real", 1, 1, "cost=1 time=30") { // any number of decimals
    Settings st; Scratch d; Out out; int n = sx_choice("decimals", 10); S i = d.path("in.fll"), o = d.path("o.fll"); std::unique_ptr<Engine> e(simple(2)); e->getInputVariable(0)->setMaximum(2.0 / 3 + 1); put(i, FllExporter().toString(e.get())); std::unique_ptr<Engine> f(FllImporter().fromString(get(i)));
    std::vector<S> a(1, "fuzzylite"); a.push_back("-decimals"); a.push_back(S(1, (char)('0' + n))); if (sx_choice("example", 2)) { a.push_back("-example"); a.push_back("m"); f.reset(FllImporter().fromString(FllExporter().toString(std::unique_ptr<Engine>(Console::mamdani()).get()))); } else { a.push_back("-i"); a.push_back(i); } a.push_back("-o"); a.push_back(o);
    int rc = run(a); sx_check((rc == 0) & (fl::fuzzylite::decimals() == n), "the number of decimals is the given one"); sx_check(get(o) == FllExporter().toString(f.get()), "and the text has them");
}
