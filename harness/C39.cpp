// Programs: the exported C++ and Java programs, executed, build an engine equal to the exported one; the exported R script has the engine and its data.
// BOUNDS: every term class with any valid parameters in [-8,8] and height (but discrete: height 1, 1-3 pairs; linear: a coefficient for every input and a constant), any ranges, default values (NaN and infinite ones too) and thresholds; every norm, defuzzifier (4 resolutions, 3 types) and activation method and none; every flag; 0-3 variables, terms, blocks and rules; texts with any printable bytes; both namespaces, both ways to name variables
// BOUNDS: numbers are equal within the 3 printed decimals; R scripts of engines with 1-3 inputs and 1-2 outputs, 1-9 values, 3 colours
// ASSUME: the programs use assignments of new objects and calls of methods, constructors and static functions only: the check interprets them with the semantics of the library (C++), and of the same methods in jfuzzylite (Java)
#include "compare.h"
#include <cstring>
#include <map>
using namespace fl;
using namespace cmp;
namespace {
struct Bad { };
// an expression of the exported program
struct Val { enum Kind { TEXT, BOOL, NUM, INT, NIL, ENGINE, NAME, TERM, NORM, DEF, ACT, RULE, HEDGE } kind; S text; bool b; scalar num; Term* term; Norm* norm; Defuzzifier* def; Activation* act; Rule* rule; Hedge* hedge; Val() : kind(NIL), b(false), num(0), term(0), norm(0), def(0), act(0), rule(0), hedge(0) { } };
struct Program {
    const S& s; size_t p; bool java, prefixed, usingSeen; std::unique_ptr<Engine> e; std::map<S, InputVariable*> in; std::map<S, OutputVariable*> out; std::map<S, RuleBlock*> block; S last;
    Program(const S& text, bool j, bool pre, Engine* have = 0) : s(text), p(0), java(j), prefixed(pre), usingSeen(have != 0), e(have) { }
    void need(bool c) { if (!c) throw Bad(); }
    static bool word(char c) { return std::isalnum((unsigned char)c) || c == '_'; }
    void space() { for (;;) { while (p < s.size() && (s[p] == ' ' || s[p] == '\n')) ++p; if (p + 1 < s.size() && s[p] == '/' && s[p + 1] == '/') { while (p < s.size() && s[p] != '\n') ++p; } else break; } }
    bool at(const char* t) { size_t n = std::strlen(t); if (p + n > s.size()) return false; for (size_t i = 0; i < n; ++i) if (s[p + i] != t[i]) return false; p += n; return true; }
    void eat(const char* t) { space(); need(at(t)); }
    bool end() { space(); return p >= s.size(); }
    S ident() { space(); size_t b = p; if (p < s.size() && std::isdigit((unsigned char)s[p])) throw Bad(); while (p < s.size() && word(s[p])) ++p; need(p > b); return s.substr(b, p - b); }
    // name of a class: with the namespace exactly if the exporter is to write it
    S cls() { space(); bool ns = at("fl::"); need(ns == (!java && prefixed)); need(java || prefixed || usingSeen); return ident(); }
    S text() { eat("\""); S r; while (p < s.size() && s[p] != '"') { if (s[p] == '\\') { ++p; need(p < s.size() && (s[p] == '"' || s[p] == '\\')); } r += s[p++]; } need(p < s.size()); ++p; return r; }
    std::vector<Val> args() { std::vector<Val> a; eat("("); space(); if (at(")")) return a; for (;;) { a.push_back(expr()); space(); if (at(")")) return a; need(at(",")); } }
    static std::vector<scalar> nums(const std::vector<Val>& a, size_t from) { std::vector<scalar> n; for (size_t i = from; i < a.size(); ++i) { if (a[i].kind != Val::NUM && a[i].kind != Val::INT) throw Bad(); n.push_back(a[i].num); } return n; }
    // a number: up to the next delimiter (printed symbolic values are only compared with characters that are not part of numbers)
    bool number(Val& v) { size_t b = p, q = p; bool dot = false; for (; q < s.size(); ++q) { char c = s[q]; if (c == ',' || c == ')' || c == ' ' || c == ';') break; if (c == '(' || c == '"' || c == ':' || c == '\n' || c == 'x' || c == 'X') return false; if (c == '.') dot = true; } if (q == b) return false; bool ok = false; v.num = Op::toScalar(s.substr(b, q - b), fl::nan, &ok); if (!ok || !Op::isFinite(v.num)) return false; v.kind = dot ? Val::NUM : Val::INT; p = q; return true; }
    bool nonfinite(Val& v) { v.kind = Val::NUM; v.num = fl::inf;
        if (java) { if (at("Double.NaN")) { v.num = fl::nan; return true; } if (at("Double.POSITIVE_INFINITY")) return true; if (at("Double.NEGATIVE_INFINITY")) { v.num = -fl::inf; return true; } return false; }
        if (at("fl::nan")) { v.num = fl::nan; return true; } if (at("fl::inf")) return true; if (at("-fl::inf")) { v.num = -fl::inf; return true; } return false; }
    Val expr() {
        space(); need(p < s.size()); Val v;
        if (s[p] == '"') { v.kind = Val::TEXT; v.text = text(); return v; }
        if (number(v)) return v;
        if (nonfinite(v)) return v;
        if (at(java ? "null" : "fl::null")) { v.kind = Val::NIL; return v; }
        if (at("new ")) { S c = cls(); std::vector<Val> a; space(); if (p < s.size() && s[p] == '(') a = args(); else need(!java); return make(c, a); }
        size_t back = p; bool ns = at("fl::"); S w = ident();
        if (!ns) { if (w == "true" || w == "false") { v.kind = Val::BOOL; v.b = w == "true"; return v; } if (w == "engine") { v.kind = Val::ENGINE; return v; } }
        space(); if (at(java ? "." : "::")) { p = back; S c = cls(); eat(java ? "." : "::"); S m = ident(); return call(c, m, args()); }
        need(!ns); v.kind = Val::NAME; v.text = w; return v;
    }
    Val make(const S& c, const std::vector<Val>& a) {
        Val v; FactoryManager* f = FactoryManager::instance();
        if (f->tnorm()->hasConstructor(c) || f->snorm()->hasConstructor(c)) { need(a.empty()); v.kind = Val::NORM; v.norm = f->tnorm()->hasConstructor(c) ? (Norm*)f->tnorm()->constructObject(c) : (Norm*)f->snorm()->constructObject(c); return v; }
        if (f->defuzzifier()->hasConstructor(c)) { v.kind = Val::DEF; v.def = f->defuzzifier()->constructObject(c); need(a.size() == 1); if (IntegralDefuzzifier* d = dynamic_cast<IntegralDefuzzifier*>(v.def)) { need(a[0].kind == Val::INT); d->setResolution((int)a[0].num); } else { need(a[0].kind == Val::TEXT); delete v.def; v.def = c == "WeightedSum" ? (Defuzzifier*)new WeightedSum(a[0].text) : (Defuzzifier*)new WeightedAverage(a[0].text); } return v; }
        if (f->activation()->hasConstructor(c)) { v.kind = Val::ACT;
            if (c == "First" || c == "Last") { need(a.size() == 2 && a[0].kind == Val::INT && a[1].kind == Val::NUM); v.act = c == "First" ? (Activation*)new First((int)a[0].num, a[1].num) : (Activation*)new Last((int)a[0].num, a[1].num); }
            else if (c == "Highest" || c == "Lowest") { need(a.size() == 1 && a[0].kind == Val::INT); v.act = c == "Highest" ? (Activation*)new Highest((int)a[0].num) : (Activation*)new Lowest((int)a[0].num); }
            else if (c == "Threshold") { need(a.size() == 2 && a[0].kind == Val::TEXT && a[1].kind == Val::NUM); v.act = new Threshold(a[0].text, a[1].num); }
            else { need(a.empty()); v.act = f->activation()->constructObject(c); } return v; }
        if (f->hedge()->hasConstructor(Op::findReplace(c, c.substr(0, 1), S(1, (char)std::tolower(c[0]))))) { need(a.empty()); v.kind = Val::HEDGE; static const char* const n[] = {"Any", "Extremely", "Not", "Seldom", "Somewhat", "Very"}; for (int i = 0; i < 6; ++i) if (c == n[i]) v.hedge = i == 0 ? (Hedge*)new Any : i == 1 ? (Hedge*)new Extremely : i == 2 ? (Hedge*)new Not : i == 3 ? (Hedge*)new Seldom : i == 4 ? (Hedge*)new Somewhat : (Hedge*)new Very; need(v.hedge); return v; }
        need(!a.empty() && a[0].kind == Val::TEXT); v.kind = Val::TERM; std::vector<scalar> n = nums(a, 1); S t = a[0].text;
        if (c == "Constant") { need(n.size() == 1); v.term = new Constant(t, n[0]); return v; }
        int k = 0; while (k < NSHAPES && c != shapeNames[k]) ++k; need(k < NSHAPES); Shape sh; sh.kind = k; sh.n = k == TRI || k == BELL ? 3 : k == TRA || k == PISH || k == SIGD || k == SIGP || k == GAUP ? 4 : 2; need(n.size() == (size_t)sh.n || n.size() == sh.n + 1u); for (int i = 0; i < sh.n; ++i) sh.p[i] = n[i]; sh.h = n.size() > (size_t)sh.n ? n.back() : 1.0; v.term = build(sh, t, 0); return v;
    }
    Val call(const S& c, const S& m, const std::vector<Val>& a) {
        Val v; need(!a.empty() && a[0].kind == Val::TEXT);
        if (c == "Rule") { need(m == "parse" && a.size() == 2 && a[1].kind == Val::ENGINE); v.kind = Val::RULE; v.rule = Rule::parse(a[0].text, e.get()); return v; }
        need(m == "create"); v.kind = Val::TERM;
        if (c == "Discrete") { size_t from = 1; if (!java) { need(a.size() > 1 && a[1].kind == Val::INT && a[1].num == (scalar)(a.size() - 2)); from = 2; } for (size_t i = from; i < a.size(); ++i) need(a[i].kind == Val::NUM); std::vector<scalar> n = nums(a, from); need(n.size() >= 2 && n.size() % 2 == 0); v.term = new Discrete(a[0].text, Discrete::toPairs(n)); return v; }
        if (c == "Linear") { need(a.size() > 2 && a[1].kind == Val::ENGINE); for (size_t i = 2; i < a.size(); ++i) need(a[i].kind == Val::NUM); std::vector<scalar> n = nums(a, 2); need(java || n.size() == e->numberOfInputVariables() + 1); v.term = new Linear(a[0].text, n, e.get()); return v; }
        need(c == "Function" && a.size() == 3 && a[1].kind == Val::TEXT && a[2].kind == Val::ENGINE); v.term = Function::create(a[0].text, a[1].text, e.get()); return v;
    }
    void declare(const S& type, const S& name) {
        need(name != "new" && !in.count(name) && !out.count(name) && !block.count(name) && (name != "engine" || type == "Engine"));
        if (type == "Engine") { need(!e && name == "engine"); e.reset(new Engine); } else { last = name;
            if (type == "InputVariable") in[name] = new InputVariable; else if (type == "OutputVariable") out[name] = new OutputVariable; else if (type == "RuleBlock") block[name] = new RuleBlock; else throw Bad(); }
    }
    void invoke(const S& o, const S& m, const std::vector<Val>& a) {
        need(!a.empty()); const Val& x = a[0]; bool one = a.size() == 1, t = one && x.kind == Val::TEXT, b = one && x.kind == Val::BOOL, nil = x.kind == Val::NIL;
        if (o == "engine") { need(e.get() && one); if (m == "setName") { need(t); e->setName(x.text); } else if (m == "setDescription") { need(t); e->setDescription(x.text); }
            else { need(x.kind == Val::NAME); if (m == "addInputVariable") { need(in.count(x.text)); e->addInputVariable(in[x.text]); } else if (m == "addOutputVariable") { need(out.count(x.text)); e->addOutputVariable(out[x.text]); } else { need(m == "addRuleBlock" && block.count(x.text)); e->addRuleBlock(block[x.text]); } } return; }
        if (block.count(o)) { RuleBlock* r = block[o]; if (m == "setName") { need(t); r->setName(x.text); } else if (m == "setDescription") { need(t); r->setDescription(x.text); } else if (m == "setEnabled") { need(b); r->setEnabled(x.b); }
            else if (m == "setActivation") { need(one && (nil || x.kind == Val::ACT)); r->setActivation(x.act); } else if (m == "addRule") { need(one && x.kind == Val::RULE); r->addRule(x.rule); }
            else { need(one && (nil || x.kind == Val::NORM)); if (m == "setConjunction") { need(nil || dynamic_cast<TNorm*>(x.norm)); r->setConjunction(dynamic_cast<TNorm*>(x.norm)); } else if (m == "setDisjunction") { need(nil || dynamic_cast<SNorm*>(x.norm)); r->setDisjunction(dynamic_cast<SNorm*>(x.norm)); } else { need(m == "setImplication" && (nil || dynamic_cast<TNorm*>(x.norm))); r->setImplication(dynamic_cast<TNorm*>(x.norm)); } } return; }
        OutputVariable* w = out.count(o) ? out[o] : 0; Variable* v = w ? (Variable*)w : in.count(o) ? (Variable*)in[o] : 0; need(v != 0);
        if (m == "setName") { need(t); v->setName(x.text); } else if (m == "setDescription") { need(t); v->setDescription(x.text); } else if (m == "setEnabled") { need(b); v->setEnabled(x.b); } else if (m == "setLockValueInRange") { need(b); v->setLockValueInRange(x.b); }
        else if (m == "setRange") { std::vector<scalar> n = nums(a, 0); need(n.size() == 2); v->setRange(n[0], n[1]); } else if (m == "addTerm") { need(one && x.kind == Val::TERM && x.term); v->addTerm(x.term); }
        else { need(w != 0 && one); if (m == "setLockPreviousValue") { need(b); w->setLockPreviousValue(x.b); } else if (m == "setDefaultValue") { w->setDefaultValue(nums(a, 0)[0]); } else if (m == "setDefuzzifier") { need(nil || x.kind == Val::DEF); w->setDefuzzifier(x.def); } else { need(m == "setAggregation" && (nil || dynamic_cast<SNorm*>(x.norm))); w->setAggregation(dynamic_cast<SNorm*>(x.norm)); } }
    }
    void run() {
        while (!end()) {
            if (!java && at("using namespace ")) { need(at("fuzzylite;")); usingSeen = true; continue; }
            // a declaration has a type, a mark (C++) and a name
            size_t back = p; at("fl::"); S w = ident(); bool decl = java ? (p < s.size() && s[p] == ' ') : (p < s.size() && s[p] == '*');
            if (decl) { p = back; S type = cls(); if (!java) eat("*"); S name = ident(); eat("="); eat("new"); need(p < s.size() && s[p] == ' '); S c = cls(); need(c == type); if (java) { eat("("); eat(")"); } declare(type, name); }
            else { p = back; S o = ident(); need(at(java ? "." : "->")); S m = ident(); invoke(o, m, args()); }
            eat(";");
        }
    }
};
// does the program build an engine equal to this one?
S source(const Engine* e, int lang, bool names) { if (lang == 2) return JavaExporter(names).toString(e); return CppExporter(lang == 1, names).toString(e); }
bool builds(const Engine* e, int lang, bool names) {
    S t = source(e, lang, names); Program p(t, lang == 2, lang == 1);
    try { p.run(); return p.e && (lang != 0 || p.usingSeen) && (lang != 1 || !p.usingSeen) && eqEngine(p.e.get(), e); } catch (Bad&) { return false; } catch (fl::Exception&) { return false; }
}
InputVariable* in(const char* n) { InputVariable* v = new InputVariable(n, 0, 1); v->addTerm(new Ramp("low", 1, 0)); v->addTerm(new Ramp("high", 0, 1)); return v; }
OutputVariable* out(const char* n) { OutputVariable* v = new OutputVariable(n, 0, 1); v->addTerm(new Constant("k", 1)); v->addTerm(new Constant("l", 2)); return v; }
S literal(const S& t) { S r = "\""; for (size_t i = 0; i < t.size(); ++i) { if (t[i] == '"' || t[i] == '\\') r += "\\"; r += t[i]; } return r + "\""; }
static const char* const langs[] = {"the C++ program builds the same engine", "the C++ program with prefixes builds the same engine", "the Java program builds the same engine"};
}
CASE(terms, "real", 21, 21, "cost=3 time=60") {
    int lang = sx_choice("language", 3); bool names = sx_choice("names", 2); Engine e("e", "any terms"); InputVariable* v = new InputVariable("v", -1, 1); if (SUB != 20) e.addInputVariable(v); OutputVariable* o = new OutputVariable("o", -1, 1); e.addOutputVariable(o); Term* t;
    if (SUB < NSHAPES) { Shape s = symShape(SUB, "p", -8, 8, true); if (sx_choice("unit", 2)) s.h = 1.0; crisp(s.h, 1); t = build(s, "t", 0); }
    else if (SUB == 17) { Discrete* d = new Discrete("t"); char nm[8]; for (int i = 0, n = 1 + sx_choice("n", 3); i < n; ++i) { std::snprintf(nm, sizeof nm, "x%d", i); scalar x = sx_choice("odd", 2) && i == 0 ? -fl::inf : sx_real(nm, 1, 8); std::snprintf(nm, sizeof nm, "y%d", i); d->xy().push_back(Discrete::Pair(x, sx_real(nm, 0.1, 1))); } t = d; }
    else if (SUB == 18) { int odd = sx_choice("odd", 3); t = new Constant("t", odd == 0 ? sx_real("c", -8, 8) : odd == 1 ? fl::nan : -fl::inf); }
    else if (SUB == 19) { std::vector<scalar> c; char nm[8]; for (int i = 0; i < 2; ++i) { std::snprintf(nm, sizeof nm, "c%d", i); c.push_back(i == 0 && sx_choice("odd", 2) ? fl::inf : sx_real(nm, -8, 8)); } t = new Linear("t", c, &e); }
    else { static const char* const f[] = {"x", "2 * v + x", "sin ( v ) ^ 2 - 1", "~v"}; e.addInputVariable(new InputVariable("v", -1, 1)); v->setName("w"); e.addInputVariable(v); t = Function::create("t", f[sx_choice("f", 4)], &e); }
    o->addTerm(t); if (SUB != 19) v->addTerm(t->clone()); o->addTerm(new Constant("last", 1));
    sx_check(builds(&e, lang, names), langs[lang]);
}

CASE(variables, "real", 4, 4, "cost=3 time=60") {
    int lang = sx_choice("language", 3); bool names = sx_choice("names", 2); Engine e("e"); scalar a = sx_real("min", -100, 100), b = sx_real("max", -100, 100), d = sx_real("default", -100, 100); int odd = sx_choice("odd", 4);
    if (odd == 1) { a = -fl::inf; b = fl::inf; d = fl::nan; } else if (odd == 2) { a = fl::nan; d = -fl::inf; } else if (odd == 3) d = fl::nan;
    bool en = sx_choice("enabled", 2), lr = sx_choice("lock_range", 2), lp = sx_choice("lock_previous", 2); int n = SUB;
    for (int i = 0; i < n; ++i) { InputVariable* v = in(i == 0 ? "a" : i == 1 ? "b" : "c"); v->setRange(a, b); v->setEnabled(i == 1 ? !en : en); v->setLockValueInRange(i == 1 ? !lr : lr); if (i == 1) v->setDescription("the second"); e.addInputVariable(v); }
    for (int i = 0; i < 3 - n; ++i) { OutputVariable* v = out(i == 0 ? "o" : i == 1 ? "p" : "q"); v->setRange(i ? b : a, i ? a : b); v->setEnabled(i == 1 ? !en : en); v->setLockValueInRange(i == 1 ? !lr : lr); v->setLockPreviousValue(i == 1 ? !lp : lp); v->setDefaultValue(d); if (i == 1) v->setDescription("another, with: a colon"); e.addOutputVariable(v); }
    sx_check(builds(&e, lang, names), langs[lang]);
}
CASE(operators, "real", 5, 5, "cost=3 time=60") {
    int lang = sx_choice("language", 3); bool names = sx_choice("names", 2); Engine e("e"); e.addInputVariable(in("a")); OutputVariable* o = out("o"); e.addOutputVariable(o); RuleBlock* b = new RuleBlock(sx_choice("unnamed", 2) ? "" : "b"); e.addRuleBlock(b); FactoryManager* m = FactoryManager::instance();
    if (SUB == 0) { std::vector<S> n = m->tnorm()->available(); int i = sx_choice("c", (int)n.size()), j = sx_choice("i", (int)n.size()); b->setConjunction(m->tnorm()->constructObject(n[i])); b->setImplication(m->tnorm()->constructObject(n[j])); }
    if (SUB == 1) { std::vector<S> n = m->snorm()->available(); int i = sx_choice("d", (int)n.size()), j = sx_choice("a", (int)n.size()); b->setDisjunction(m->snorm()->constructObject(n[i])); o->setAggregation(m->snorm()->constructObject(n[j])); }
    if (SUB == 2) { std::vector<S> n = m->defuzzifier()->available(); o->setDefuzzifier(m->defuzzifier()->constructObject(n[sx_choice("f", (int)n.size())])); int k = sx_choice("k", 4); static const int res[] = {1000, 1, 20, 999999};
        if (IntegralDefuzzifier* d = dynamic_cast<IntegralDefuzzifier*>(o->getDefuzzifier())) d->setResolution(res[k]); if (WeightedDefuzzifier* d = dynamic_cast<WeightedDefuzzifier*>(o->getDefuzzifier())) d->setType(k == 1 ? WeightedDefuzzifier::TakagiSugeno : k == 2 ? WeightedDefuzzifier::Tsukamoto : WeightedDefuzzifier::Automatic); }
    if (SUB == 3) { int k = sx_choice("method", 7); scalar t = sx_real("t", -1, 2); int n = k < 4 ? sx_choice("n", 4) : 1; b->setActivation(k == 0 ? (Activation*)new First(n, t) : k == 1 ? (Activation*)new Last(n, t) : k == 2 ? (Activation*)new Highest(n) : k == 3 ? (Activation*)new Lowest(n) : k == 4 ? (Activation*)new Threshold(Threshold::Comparison(sx_choice("cmp", 6)), t) : k == 5 ? (Activation*)new Proportional : (Activation*)new General); }
    if (SUB == 4) { b->setEnabled(sx_choice("on", 2)); if (sx_choice("described", 2)) b->setDescription("rules"); if (sx_choice("more", 2)) { RuleBlock* c = new RuleBlock; c->setActivation(new Proportional); c->setConjunction(new Minimum); e.addRuleBlock(c); } }
    sx_check(builds(&e, lang, names), langs[lang]);
}
CASE(rules, "real", 4, 4, "cost=3 time=60") { // SUB = number of rules of the first block
    static const char* const t[] = {"if a is low then o is k", "if a is not low and (b is very high or a is any) then o is somewhat k and p is l with 0.25", "if o is k or b is low then p is l with 0.5"};
    int lang = sx_choice("language", 3); bool names = sx_choice("names", 2); Engine e("e"); e.addInputVariable(in("a")); e.addInputVariable(in("b")); e.addOutputVariable(out("o")); e.addOutputVariable(out("p"));
    for (int k = 0; k < 2; ++k) { RuleBlock* b = new RuleBlock(k ? "" : "first block"); b->setActivation(new General); b->setConjunction(new Minimum); e.addRuleBlock(b); for (int i = 0; i < (k ? 1 : SUB); ++i) { char nm[8]; std::snprintf(nm, sizeof nm, "r%d%d", k, i); b->addRule(Rule::parse(t[sx_choice(nm, 3)], &e)); } }
    sx_check(builds(&e, lang, names), langs[lang]);
}
// texts of any printable bytes
CASE(texts, "real", 3, 3, "cost=3 time=100 max_paths=8000") {
    int lang = sx_choice("language", 3); S w; char nm[8]; for (int i = 0; i < 2; ++i) { std::snprintf(nm, sizeof nm, "c%d", i); int b = sx_byte(nm); sx_assume((b >= 32) & (b < 127)); w += (char)b; }
    Engine e(SUB == 0 ? w : "e"); InputVariable* v = in("a"); OutputVariable* o = out("o"); RuleBlock* b = new RuleBlock("b"); b->setActivation(new General); e.addInputVariable(v); e.addOutputVariable(o); e.addRuleBlock(b);
    if (SUB == 0) e.setDescription("-" + w); if (SUB == 1) { v->setDescription(w + "-"); b->setDescription(w); b->setName(w + "/"); } if (SUB == 2) { v->getTerm(0)->setName(w); o->getTerm(0)->setName(w + "t"); o->setDescription(w); }
    sx_check(builds(&e, lang, false), langs[lang]);
}
CASE(wording, "real", 1, 1, "cost=2 time=60") { // variables called by their name or by their kind and number
    int lang = sx_choice("language", 3), ni = 1 + sx_choice("inputs", 3), no = 1 + sx_choice("outputs", 2), nb = 1 + sx_choice("blocks", 2); bool names = sx_choice("names", 2); Engine e("e"); static const char* const n[] = {"alpha", "beta gamma", "delta_1", "out", "power", "first", ""}; for (int i = 0; i < ni; ++i) e.addInputVariable(in(n[i])); for (int i = 0; i < no; ++i) e.addOutputVariable(out(n[3 + i])); for (int i = 0; i < nb; ++i) e.addRuleBlock(new RuleBlock(n[5 + i])); e.getInputVariable(0)->setMaximum(sx_real("max", 1, 2));
    S t = source(&e, lang, names); Program p(t, lang == 2, lang == 1); bool ok = true; try { p.run(); } catch (Bad&) { ok = false; } ok = ok && eqEngine(p.e.get(), &e); sx_check(ok, langs[lang]); if (!ok) return;
    for (int i = 0; i < ni; ++i) ok = ok && p.in.count(names ? Op::validName(n[i]) : ni == 1 ? S("inputVariable") : "inputVariable" + Op::str(i + 1)); for (int i = 0; i < no; ++i) ok = ok && p.out.count(names ? Op::validName(n[3 + i]) : no == 1 ? S("outputVariable") : "outputVariable" + Op::str(i + 1)); for (int i = 0; i < nb; ++i) ok = ok && p.block.count(names && i == 0 ? S("first") : nb == 1 ? S("ruleBlock") : "ruleBlock" + Op::str(i + 1)); sx_check(ok, "objects are called as asked for");
}
CASE(parts, "real", 1, 1, "cost=2 time=60") { // the program of an engine is its head and the programs of its parts, in order; clones write the same; hedges
    int lang = sx_choice("language", 3); bool names = sx_choice("names", 2); Engine e("e"); e.addInputVariable(in("a")); e.addInputVariable(in("b")); e.addOutputVariable(out("o")); RuleBlock* b = new RuleBlock("b"); b->addRule(Rule::parse("if a is low then o is k", &e)); e.addRuleBlock(b); e.getInputVariable(0)->setMaximum(sx_real("m", 1, 5)); S all, parts, again;
    CppExporter x(lang == 1, names); JavaExporter y(names); if (lang == 2) { all = y.toString(&e); again = std::unique_ptr<JavaExporter>(y.clone())->toString(&e); for (int i = 0; i < 2; ++i) parts += y.toString(e.getInputVariable(i), &e) + "\n"; parts += y.toString(e.getOutputVariable(0), &e) + "\n" + y.toString(b, &e) + "\n"; }
    else { all = x.toString(&e); again = std::unique_ptr<CppExporter>(x.clone())->toString(&e); for (int i = 0; i < 2; ++i) parts += x.toString(e.getInputVariable(i), &e) + "\n"; parts += x.toString(e.getOutputVariable(0), &e) + "\n" + x.toString(b, &e) + "\n"; }
    sx_check(all.size() > parts.size() && all.substr(all.size() - parts.size()) == parts && all == again, "an engine is its parts in order, clones write the same");
    if (lang == 2) { sx_check(y.name() == "JavaExporter" && y.isUsingVariableNames() == names, "settings of the exporter"); return; }
    sx_check(x.name() == "CppExporter" && x.isUsingVariableNames() == names && x.isUsingNamespace() == (lang == 1), "settings of the exporter");
    HedgeFactory* f = FactoryManager::instance()->hedge(); std::vector<S> h = f->available(); S k = h[sx_choice("hedge", (int)h.size())]; if (k.empty()) return; std::unique_ptr<Hedge> q(f->constructObject(k)); S t = x.toString(q.get()); Program p(t, false, lang == 1, new Engine); Val v; bool ok = true; try { v = p.expr(); } catch (Bad&) { ok = false; } sx_check(ok && v.kind == Val::HEDGE && v.hedge->name() == k && p.end(), "hedges are built by their class"); delete v.hedge;
}
CASE(forward, "real", 1, 1, "cost=1 time=60") { // a function term uses variables that come later
    int lang = sx_choice("language", 3); Engine e("e"); e.addInputVariable(in("a")); e.addInputVariable(in("b")); e.getInputVariable(0)->addTerm(Function::create("t", "2 * b + x", &e)); sx_check(builds(&e, lang, false), "a function term that uses a later variable can be built by the program");
}
// R: the script has the names, the engine as text, its data for two variables, and plots for every output
CASE(r_script, "real", 4, 4, "cost=3 time=60") {
    int n = 1 + sx_choice("inputs", 3), ia = sx_choice("a", n), ib = sx_choice("b", n), no = 1 + sx_choice("outputs", 2), values = sx_choice("values", 4); values = values == 3 ? 9 : values + 1; bool all = sx_choice("all", 2); int described = sx_choice("described", 3); if (n > 1 && !all && values > 4) values = 4;
    Engine e("an engine", described == 2 ? "say \"R\" or \\" : described ? "for R" : ""); static const char* const nm[] = {"a", "b", "c"}; for (int i = 0; i < n; ++i) e.addInputVariable(in(nm[i])); scalar m = sx_real("max", 2, 50); e.getInputVariable(0)->setMaximum(m); RuleBlock* b = new RuleBlock("r"); b->setActivation(new General); b->setImplication(new AlgebraicProduct);
    for (int i = 0; i < no; ++i) { OutputVariable* o = out(i ? "p" : "o"); o->setRange(-10, 10); o->setDefuzzifier(new WeightedAverage); e.addOutputVariable(o); b->addRule(Rule::parse(i ? "if a is any then p is l" : "if a is any then o is k", &e)); } e.addRuleBlock(b); if (n > 2) e.getInputVariable(2)->setValue(0.5);
    InputVariable *a = e.getInputVariable(ia), *c = e.getInputVariable(ib); RScriptExporter x; static const char* const col[] = {"red", "yellow", "black"}; bool painted = described == 1; if (painted) { x.setMinimumColor(col[0]); x.setMaximumColor("white"); x.setContourColor("grey"); } S lo = painted ? col[0] : col[1], hi = painted ? "white" : "red", line = painted ? "grey" : "black";
    std::vector<OutputVariable*> outs = e.outputVariables(); if (no > 1 && described == 2) outs.erase(outs.begin()); std::vector<InputVariable*> act = e.inputVariables(); for (int i = 0; i < n; ++i) if (i != ia && i != ib) act[i] = fl::null;
    S t, data; bool given = SUB == 1, file = SUB == 2; FldExporter f; FldExporter::ScopeOfValues sc = all ? FldExporter::AllVariables : FldExporter::EachVariable; S rows; for (int r = 0; r < values; ++r) { for (int i = 0; i < n; ++i) rows += i ? " 2" : r % 2 ? "1" : "2"; rows += "\n"; } S fll = FllExporter().toString(&e);
    if (given) { std::istringstream is(rows), js(rows); t = x.toString(&e, a, c, is, outs); data = f.toString(&e, js); }
    else if (file) { std::ostringstream os; x.writeScriptImportingDataFrame(&e, os, a, c, "data.fld", outs); t = os.str(); }
    else if (SUB == 3) { if (n < 1) return; t = dynamic_cast<RScriptExporter&>(*std::unique_ptr<Exporter>(static_cast<Exporter&>(x).clone())).toString(&e, a, c, values, sc, outs); std::ostringstream os; f.write(&e, os, values, sc, act); data = os.str(); }
    else { t = x.toString(&e, a, c, values, sc, outs); std::ostringstream os; f.write(&e, os, values, sc, act); data = os.str(); }
    // the script line by line
    size_t p = 0; bool ok = true;
#define EXPECT(w) do { S w_ = (w); if (ok && t.compare(p, w_.size(), w_) != 0) ok = false; p += w_.size(); } while (0)
    EXPECT("#Code automatically generated with " + fl::fuzzylite::library() + ".\n\nlibrary(ggplot2);\n\nengine.name = \"an engine\"\n"); if (described) EXPECT("engine.description = " + literal(e.getDescription()) + "\n"); EXPECT("engine.fll = " + literal(fll) + "\n\n"); sx_check(ok, "the script has the name, description and text of the engine");
    if (file) EXPECT("engine.fldFile = \"data.fld\"\nif (require(data.table)) {\n    engine.df = data.table::fread(engine.fldFile, sep=\"auto\", header=\"auto\")\n} else {\n    engine.df = read.table(engine.fldFile, header=TRUE)\n}\n\n");
    else EXPECT("engine.fld = \"" + data + "\"\n\nengine.df = read.delim(textConnection(engine.fld), header=TRUE, sep=\" \", strip.white=TRUE)\n\n"); sx_check(ok, "the script has the data of the two variables, or reads the file");
    S grid; for (size_t i = 0; i < outs.size(); ++i) { S k = Op::str(i + 1), z = outs[i]->getName();
        for (int side = 0; side < 2; ++side) { S u = (side ? c : a)->getName(), w = (side ? a : c)->getName(); S plot = ia != ib ? (side ? "engine.plot.i2i1_o" : "engine.plot.i1i2_o") + k : side ? "engine.plot.o" + k + "_i1" : "engine.plot.i1_o" + k; grid += plot + ", ";
            if (ia != ib) EXPECT(plot + " = ggplot(engine.df, aes(" + u + ", " + w + ")) + \n    geom_tile(aes(fill=" + z + ")) + \n    scale_fill_gradient(low=\"" + lo + "\", high=\"" + hi + "\") + \n    stat_contour(aes(x=" + u + ", y=" + w + ", z=" + z + "), color=\"" + line + "\") + \n    ggtitle(\"(" + u + ", " + w + ") = " + z + "\")\n\n");
            else EXPECT(plot + " = ggplot(engine.df, aes(" + u + ", " + z + ")) + \n    geom_line(aes(color=" + z + "), size=3, lineend=\"round\", linejoin=\"mitre\") + \n    scale_color_gradient(low=\"" + lo + "\", high=\"" + hi + "\") + \n" + (side ? "    coord_flip() + \n    ggtitle(\"" + z + " vs " + u + "\")\n\n" : "    ggtitle(\"" + u + " vs " + z + "\")\n\n")); } }
    sx_check(ok, "two plots for every output"); EXPECT("if (require(gridExtra)) {\n    engine.plots = arrangeGrob(" + grid + "ncol=2, top=engine.name)\n    ggsave(paste0(engine.name, \".pdf\"), engine.plots)\n    if (require(grid)) {\n        grid.newpage()\n        grid.draw(engine.plots)\n    }\n}\n"); sx_check(ok && p == t.size(), "all plots in a grid");
}
CASE(r_refused, "real", 1, 1, "cost=1 time=30") { // an engine without inputs or outputs has no surface
    Engine e("e"); int n = sx_choice("inputs", 2), o = sx_choice("outputs", 2); if (n) e.addInputVariable(in("a")); if (o) { OutputVariable* v = out("o"); v->setDefaultValue(sx_real("d", 1, 2)); e.addOutputVariable(v); } if (n && o) return; bool refused = false; try { RScriptExporter().toString(&e); } catch (fl::Exception&) { refused = true; } sx_check(refused, "an engine without inputs or outputs is refused");
}
