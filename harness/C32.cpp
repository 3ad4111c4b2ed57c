// FuzzyLite Language import: a text is refused or gives an engine whose own text is stable; defects are refused, never skipped.
// BOUNDS: a complete engine text of 30 lines with any line deleted, duplicated, swapped with its successor, cut at any length, or its value replaced by any of 14 others; any 1-2 (thorough 3) bytes inserted at any of 10 places; 40 texts with one defect each; texts with any two lines missing and with any two lines only, against engines built by hand
#include "compare.h"
using namespace fl;
static const char* const text[] = {"Engine: sample", "description: a text", "InputVariable: a", "  description: first", "  enabled: true", "  range: 0 1", "  lock-range: false", "  term: low Ramp 1 0", "  term: high Triangle 0 1 2 0.5", "InputVariable: b", "  range: -inf inf", "  term: d Discrete 0 0 1 1",
    "OutputVariable: o", "  enabled: true", "  range: 0 1", "  lock-range: true", "  aggregation: Maximum", "  defuzzifier: Centroid 100", "  default: nan", "  lock-previous: true", "  term: k Constant 1", "  term: l Linear 1 2 3", "RuleBlock: rules", "  enabled: true", "  conjunction: Minimum", "  disjunction: none", "  implication: AlgebraicProduct", "  activation: First 1 0.5", "  rule: if a is low and b is d then o is k", "  rule: if a is high then o is l with 0.5"};
static const int N = 30;
static std::vector<S> lines() { return std::vector<S>(text, text + N); }
// refused, or an engine whose export imports and exports to the same text
static int judge(const S& t, std::unique_ptr<Engine>* keep = 0, bool numbers = false) {
    std::unique_ptr<Engine> e; int how = 0;
    try { e.reset(FllImporter().fromString(t)); } catch (std::exception&) { how = 1; } catch (...) { how = 2; }
    sx_check(how < 2, "a text is refused with an error of the standard kind, or imported"); if (how) return 0;
    S first = FllExporter().toString(e.get()); bool ok = true, equal = true;
    try { std::unique_ptr<Engine> f(FllImporter().fromString(first)); equal = numbers ? cmp::eqEngine(f.get(), e.get()) : FllExporter().toString(f.get()) == first; } catch (std::exception&) { ok = false; }
    sx_check(ok, "the text of an engine that was imported can be imported"); if (ok) sx_check(equal, "and gives the same text again");
    if (keep) *keep = std::move(e);
    return 1;
}
CASE(edited, "real", 4, 4, "cost=4 time=120") {
    std::vector<S> l = lines(); int at = sx_choice("at", N); S whole = Op::join(l, "\n");
    if (SUB == 0) { S gone = l[at]; l.erase(l.begin() + at); int ok = judge(Op::join(l, "\n")); bool needed = at == 2 || at == 22; (void)needed; sx_check(ok == 1 || gone[0] != ' ', "no line within a block is needed"); }
    if (SUB == 1) { l.insert(l.begin() + at, l[at]); judge(Op::join(l, "\n")); }
    if (SUB == 2) { if (at + 1 == N) return; std::swap(l[at], l[at + 1]); judge(Op::join(l, "\n")); }
    if (SUB == 3) { l.resize(at + 1); S t = Op::join(l, "\n"); int cut = sx_choice("cut", 12); if (cut >= (int)l[at].size()) return; judge(t.substr(0, t.size() - cut)); }
}
CASE(values, "real", 14, 14, "cost=3 time=120") {
    static const char* const v[] = {"", " ", "true", "false", "none", "nan", "1", "0 1", "x", "Minimum", "Maximum", "Centroid", "k Constant", "if a is low then o is k"};
    std::vector<S> l = lines(); int at = sx_choice("at", N); size_t c = l[at].find(':'); l[at] = l[at].substr(0, c + 1) + " " + v[SUB]; judge(Op::join(l, "\n"));
}
CASE(bytes, "real", 20, 30, "cost=8 time=150 max_paths=20000") {
    static const int where[] = {0, 5, 7, 8, 11, 16, 17, 24, 27, 28}; int n = SUB / 10 + 1; S w; char nm[8]; for (int i = 0; i < n; ++i) { std::snprintf(nm, sizeof nm, "c%d", i); int b = sx_byte(nm); if (SUB >= 20) sx_assume((b >= 32) & (b < 127)); w += (char)b; }
    std::vector<S> l; l.push_back(text[0]); int k = where[SUB % 10]; l.push_back(k < 12 ? "InputVariable: a" : k < 22 ? "OutputVariable: o" : "RuleBlock: r"); S s = text[k]; size_t c = s.find(':'); if (k == 0) l.clear(); l.push_back(s.substr(0, c + 3) + w + s.substr(c + 3)); judge(Op::join(l, "\n"), 0, k == 5);
}
// the engine that the lines present describe, built by hand
static Engine* built(const bool* has) {
    Engine* e = new Engine("sample"); if (has[1]) e->setDescription("a text");
    InputVariable* a = new InputVariable("a"); e->addInputVariable(a); if (has[3]) a->setDescription("first"); if (has[4]) a->setEnabled(false); if (has[5]) a->setRange(0, 1); if (has[6]) a->setLockValueInRange(true); if (has[7]) a->addTerm(new Ramp("low", 1, 0)); if (has[8]) a->addTerm(new Triangle("high", 0, 1, 2, 0.5));
    InputVariable* b = new InputVariable("b"); e->addInputVariable(b); if (has[10]) b->setRange(-2, fl::inf); if (has[11]) { Discrete* d = new Discrete("d"); d->xy().push_back(Discrete::Pair(0, 0)); d->xy().push_back(Discrete::Pair(1, 1)); b->addTerm(d); }
    OutputVariable* o = new OutputVariable("o"); e->addOutputVariable(o); if (has[13]) o->setEnabled(false); if (has[14]) o->setRange(0, 1); if (has[15]) o->setLockValueInRange(true); if (has[16]) o->setAggregation(new Maximum); if (has[17]) o->setDefuzzifier(new Centroid(100)); if (has[18]) o->setDefaultValue(0.25); if (has[19]) o->setLockPreviousValue(true);
    std::vector<scalar> c(3); c[0] = 1; c[1] = 2; c[2] = 3; if (has[20]) o->addTerm(new Constant("k", 1)); if (has[21]) o->addTerm(new Linear("l", c, e));
    RuleBlock* r = new RuleBlock("rules"); e->addRuleBlock(r); if (has[23]) r->setEnabled(false); if (has[24]) r->setConjunction(new Minimum); if (has[25]) r->setDisjunction(new EinsteinSum); if (has[26]) r->setImplication(new AlgebraicProduct); r->setActivation(has[27] ? (Activation*)new First(1, 0.5) : new General);
    for (int i = 28; i < 30; ++i) if (has[i]) { Rule* q = new Rule(S(text[i]).substr(8)); try { q->load(e); } catch (fl::Exception&) { } r->addRule(q); } return e;
}
CASE(parts, "real", 3, 3, "cost=4 time=100") { // every line sets its part and nothing else
    std::vector<S> l = lines(), t; l[4] = "  enabled: false"; l[6] = "  lock-range: true"; l[10] = "  range: -2 inf"; l[13] = "  enabled: false"; l[18] = "  default: 0.25"; l[23] = "  enabled: false"; l[25] = "  disjunction: EinsteinSum";
    int i = sx_choice("i", N), j = sx_choice("j", N); bool has[N]; for (int k = 0; k < N; ++k) { bool picked = k == i || k == j, head = k == 0 || k == 2 || k == 9 || k == 12 || k == 22; has[k] = head || (SUB == 0 ? !picked : SUB == 1 ? picked : picked || k == 7 || k == 20 || k == 27); if (has[k]) t.push_back(l[k]); }
    std::unique_ptr<Engine> e(FllImporter().fromString(Op::join(t, "\n"))), b(built(has)); sx_check(cmp::eqEngine(e.get(), b.get()), "every line sets its part and nothing else, the rest has its initial value");
}
// one defect each
CASE(defects, "real", 1, 1, "cost=1 time=60") {
    static const char* const d[][2] = {{"0", "Engine sample"}, {"0", "engine: sample"}, {"1", "enabled: true"}, {"2", "Variable: a"}, {"2", "InputVariable a"}, {"4", "enabled: yes"}, {"4", "enabled: True"}, {"4", "enabled: "}, {"4", "enabled: 1"}, {"5", "range: 0"}, {"5", "range: "}, {"5", "range: 0 x"}, {"5", "range: 0 1 2"}, {"5", "ranges: 0 1"}, {"6", "lock-range: maybe"}, {"6", "default: 0"}, {"6", "aggregation: Maximum"},
        {"7", "term: low"}, {"7", "term: "}, {"7", "term: low Slope 1 0"}, {"7", "term: low Ramp 1"}, {"7", "term: low Ramp 1 x"}, {"8", "term: high Triangle 0 1"}, {"11", "term: d Discrete 0 0 x 1"}, {"16", "aggregation: Minimum"}, {"16", "aggregation: Max"}, {"17", "defuzzifier: Middle"}, {"17", "defuzzifier: Centroid x"}, {"17", "defuzzifier: WeightedSum Sugeno"}, {"18", "default: zero"}, {"19", "lock-previous: 0"}, {"20", "term: k Constant x"},
        {"21", "rule: if a is low then o is k"}, {"24", "conjunction: Maximum"}, {"24", "conjunction: min"}, {"25", "disjunction: Minimum"}, {"26", "implication: 0.5"}, {"27", "activation: Firstly 1 0.5"}, {"27", "activation: First 1"}, {"27", "activation: Threshold = 0.5"}, {"28", "rules: if a is low then o is k"}, {"28", "term: k Constant 1"}};
    const int n = sizeof d / sizeof *d; int i = sx_choice("i", n); std::vector<S> l = lines(); l[std::atoi(d[i][0])] = d[i][1]; sx_check(judge(Op::join(l, "\n")) == 0, "a text with a defect is refused");
}
// bad rules are kept as text, not loaded, and do not stop the import; older names of keys are understood
CASE(lenient, "real", 1, 1, "cost=1 time=60") {
    static const char* const r[] = {"if a is low then o is missing", "nothing", "if a is low", "if a is low then o is k with x", ""}; int i = sx_choice("i", 5); std::vector<S> l = lines(); l[28] = S("rule: ") + r[i]; std::unique_ptr<Engine> e; int ok = judge(Op::join(l, "\n"), &e);
    sx_check(ok == 1 && e->getRuleBlock(0)->numberOfRules() == 2 && e->getRuleBlock(0)->getRule(0)->getText() == r[i] && !e->getRuleBlock(0)->getRule(0)->isLoaded() && e->getRuleBlock(0)->getRule(1)->isLoaded(), "a rule that is not well formed is kept but not loaded");
    l = lines(); l[16] = "accumulation: AlgebraicSum"; l[19] = "lock-valid: true"; l[27] = "activation: Minimum"; ok = judge(Op::join(l, "\n"), &e);
    sx_check(ok == 1 && e->getOutputVariable(0)->getAggregation()->className() == "AlgebraicSum" && e->getOutputVariable(0)->isLockPreviousValue() && e->getRuleBlock(0)->getImplication()->className() == "Minimum" && e->getRuleBlock(0)->getActivation()->className() == "General", "keys of older versions are understood");
}
// names of blocks and descriptions are the whole rest of the line after the first colon
CASE(free_text, "real", 5, 8, "cost=4 time=100 max_paths=20000") {
    static const char* const key[] = {"Engine", "  description", "RuleBlock", "  description", "  description"}; int k = SUB % 5, n = SUB / 5 + 1; S w; char nm[8]; for (int i = 0; i < n; ++i) { std::snprintf(nm, sizeof nm, "c%d", i); int b = sx_byte(nm); sx_assume((b > 32) & (b < 127) & (b != '#')); w += (char)b; }
    S v = "x " + w + " y: " + w + "z"; std::vector<S> l; l.push_back("Engine: e"); if (k == 1) l.push_back(S(key[1]) + ": " + v); if (k == 3) { l.push_back("InputVariable: a"); l.push_back(S(key[3]) + ":" + v); } l.push_back("RuleBlock: r"); if (k == 4) l.push_back(S(key[4]) + ":  " + v); if (k == 0) l[0] = S(key[0]) + ": " + v; if (k == 2) l[1] = S(key[2]) + ": " + v;
    std::unique_ptr<Engine> e(FllImporter().fromString(Op::join(l, "\n"))); const S& got = k == 0 ? e->getName() : k == 1 ? e->getDescription() : k == 2 ? e->getRuleBlock(0)->getName() : k == 3 ? e->getInputVariable(0)->getDescription() : e->getRuleBlock(0)->getDescription(); sx_check(got == v, "names of engines and blocks and descriptions are taken as written");
}
// names of variables and terms keep their letters, digits, underscores and dots and nothing else
CASE(valid_names, "real", 3, 6, "cost=3 time=60 max_paths=20000") {
    int k = SUB % 3, n = SUB / 3 + 1; S w, want = "x"; char nm[8]; for (int i = 0; i < n; ++i) { std::snprintf(nm, sizeof nm, "c%d", i); int b = sx_byte(nm); sx_assume((b > 32) & (b < 127) & (b != '#') & (b != ':')); w += (char)b; if (((b >= 'a') & (b <= 'z')) | ((b >= 'A') & (b <= 'Z')) | ((b >= '0') & (b <= '9')) | (b == '_') | (b == '.')) want += (char)b; }
    w = "x" + w + "z"; want += "z"; S t = "Engine: e\n"; t += k == 0 ? "InputVariable: " + w + "\n" : k == 1 ? "OutputVariable: " + w + "\n" : "InputVariable: v\n  term: " + w + " Triangle 0 1 2\n"; std::unique_ptr<Engine> e(FllImporter().fromString(t));
    S got = k == 0 ? e->getInputVariable(0)->getName() : k == 1 ? e->getOutputVariable(0)->getName() : e->getInputVariable(0)->getTerm(0)->getName(); sx_check(got == want, "names keep what is allowed in names"); sx_check(k == 0 ? e->hasInputVariable(want) : k == 1 ? e->hasOutputVariable(want) : e->getInputVariable(0)->hasTerm(want), "and are found by it");
}
