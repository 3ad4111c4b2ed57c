// Fuzzy Control Language (FCL) files: exporting and importing keeps what the format expresses; names and points are those of the format; text is refused or understood.
// BOUNDS: every term class with any parameters in [-8,8] and height (discrete terms without); every operator and defuzzifier of the factories and none; any range and default value (NaN and infinite too), locked or not; 0-3 variables per side and 0-3 terms; 0-3 rules per block, 0-2 blocks; names with any 1-2 printable bytes; 8 layouts
// BOUNDS: reading: a text of 38 lines with any line deleted, duplicated, swapped or cut; any 1-2 bytes (thorough: 3 printable ones) inserted at 10 places; 57 texts with one defect each
// BOUNDS: numbers are equal within the 3 printed decimals; the format has no place for descriptions, enabled flags and range locks on export, resolutions, activation methods and heights of discrete terms
#include "compare.h"
using namespace fl;
using namespace cmp;
static Engine* again(const Engine* e) { return FclImporter().fromString(FclExporter().toString(e)); }
static InputVariable* in(const char* n) { InputVariable* v = new InputVariable(n, 0, 1); v->addTerm(new Ramp("low", 1, 0)); v->addTerm(new Ramp("high", 0, 1)); return v; }
static OutputVariable* out(const char* n) { OutputVariable* v = new OutputVariable(n, 0, 1); v->addTerm(new Constant("k", 1)); v->addTerm(new Constant("l", 2)); return v; }
static bool sameTerm(const Term* a, const Term* b) {
    const Function* f = dynamic_cast<const Function*>(b); if (!f) return eqTerm(a, b);
    const Function* g = dynamic_cast<const Function*>(a); return g && g->getName() == f->getName() && g->isLoaded() && f->root()->toPostfix() == g->root()->toPostfix();
}
static bool sameKind(const Defuzzifier* a, const Defuzzifier* b) { return (!a && !b) || (a && b && a->className() == b->className()); }
static bool sameEngine(const Engine* a, const Engine* b) { // what the format expresses
    if (a->getName() != b->getName() || a->numberOfInputVariables() != b->numberOfInputVariables() || a->numberOfOutputVariables() != b->numberOfOutputVariables() || a->numberOfRuleBlocks() != b->numberOfRuleBlocks()) return false;
    bool ok = true; std::vector<Variable*> x = a->variables(), y = b->variables();
    for (size_t i = 0; i < y.size(); ++i) { if (x[i]->getName() != y[i]->getName() || x[i]->numberOfTerms() != y[i]->numberOfTerms()) return false; ok = ok & eq(x[i]->getMinimum(), y[i]->getMinimum()) & eq(x[i]->getMaximum(), y[i]->getMaximum()); for (size_t j = 0; j < y[i]->numberOfTerms(); ++j) ok = ok & sameTerm(x[i]->getTerm(j), y[i]->getTerm(j)); }
    for (size_t i = 0; i < b->numberOfOutputVariables(); ++i) { const OutputVariable *o = a->getOutputVariable(i), *p = b->getOutputVariable(i); ok = ok & eqNorm(o->getAggregation(), p->getAggregation()) & sameKind(o->getDefuzzifier(), p->getDefuzzifier()) & eq(o->getDefaultValue(), p->getDefaultValue()) & (o->isLockPreviousValue() == p->isLockPreviousValue()); }
    for (size_t i = 0; i < b->numberOfRuleBlocks(); ++i) { const RuleBlock *p = a->getRuleBlock(i), *q = b->getRuleBlock(i); if (p->getName() != q->getName() || p->numberOfRules() != q->numberOfRules()) return false;
        ok = ok & eqNorm(p->getConjunction(), q->getConjunction()) & eqNorm(p->getDisjunction(), q->getDisjunction()) & eqNorm(p->getImplication(), q->getImplication()) & (p->getActivation() && p->getActivation()->className() == "General");
        for (size_t j = 0; j < q->numberOfRules(); ++j) { const Rule *r = p->getRule(j), *s = q->getRule(j); ok = ok & (r->getText() == s->getText()) & (r->isLoaded() == s->isLoaded()) & eq(r->getWeight(), s->getWeight()); } }
    return ok;
}
CASE(terms, "real", 21, 21, "cost=3 time=60") {
    Engine e("e"); InputVariable* v = new InputVariable("v", -1, 1); OutputVariable* o = new OutputVariable("o", -1, 1); e.addInputVariable(v); e.addOutputVariable(o); Term* t;
    if (SUB < NSHAPES) { Shape s = symShape(SUB, "p", -8, 8, true, true); if (sx_choice("unit", 2)) s.h = 1.0; crisp(s.h, 1); t = build(s, "t", 0); }
    else if (SUB == 17) { Discrete* d = new Discrete("t"); char nm[8]; for (int i = 0, n = 1 + sx_choice("n", 3); i < n; ++i) { std::snprintf(nm, sizeof nm, "x%d", i); scalar x = sx_real(nm, -8, 8); std::snprintf(nm, sizeof nm, "y%d", i); d->xy().push_back(Discrete::Pair(x, sx_real(nm, 0, 1))); } t = d; }
    else if (SUB == 18) t = new Constant("t", sx_real("c", -8, 8));
    else if (SUB == 19) { std::vector<scalar> c; char nm[8]; for (int i = 0, n = sx_choice("n", 4); i < n; ++i) { std::snprintf(nm, sizeof nm, "c%d", i); c.push_back(sx_real(nm, -8, 8)); } t = new Linear("t", c, &e); }
    else { static const char* const f[] = {"x", "2*v + x", "sin(v)^2 - 1", "~v", "x and v or !x", "max(v, min(x, 2))"}; v->setName("w"); InputVariable* k = new InputVariable("v", -1, 1); e.addInputVariable(k); std::swap(e.inputVariables()[0], e.inputVariables()[1]); t = Function::create("t", f[sx_choice("f", 6)], &e); }
    bool first = sx_choice("first", 2) == 0; if (!first) v->addTerm(new Triangle("other", 0, 0.5, 1));
    v->addTerm(t); o->addTerm(t->clone()); o->addTerm(new Constant("last", 1));
    std::unique_ptr<Engine> f; try { f.reset(again(&e)); } catch (fl::Exception&) { }
    sx_check(f && sameEngine(f.get(), &e), "terms come back with class, name, parameters and height");
    if (f && SUB == 19) sx_check(dynamic_cast<const Linear*>(f->getInputVariable(0)->getTerm("t"))->getEngine() == f.get(), "a linear term refers to the engine read");
    if (f && SUB == 20) { f->getInputVariable(0)->setValue(0.5); e.getInputVariable(0)->setValue(0.5); sx_check(same(f->getInputVariable(1)->getTerm("t")->membership(0.25), t->membership(0.25)), "a function term refers to the engine read"); }
}
CASE(variables, "real", 4, 4, "cost=3 time=60") {
    Engine e("e"); scalar a = sx_real("min", -100, 100), b = sx_real("max", -100, 100), d = sx_real("default", -100, 100); int odd = sx_choice("odd", 4); if (odd == 1) { a = -fl::inf; b = fl::inf; d = fl::nan; } else if (odd == 2) { a = fl::nan; d = -fl::inf; } else if (odd == 3) d = fl::nan;
    bool lp = sx_choice("lock", 2); static const char* const n[] = {"a", "b", "c", "o", "p", "q"};
    for (int i = 0; i < SUB; ++i) { InputVariable* v = i == 1 ? new InputVariable(n[i]) : in(n[i]); v->setRange(i ? a : b, i ? b : a); e.addInputVariable(v); }
    for (int i = 0; i < 3 - SUB; ++i) { OutputVariable* v = i == 1 ? new OutputVariable(n[3 + i]) : out(n[3 + i]); v->setRange(a, b); v->setDefaultValue(i ? -d : d); v->setLockPreviousValue(i == 1 ? !lp : lp); e.addOutputVariable(v); }
    vary(e); std::unique_ptr<Engine> f(again(&e)); sx_check(sameEngine(f.get(), &e), "variables come back in order with name, range, terms, default value and lock");
}
CASE(operators, "real", 4, 4, "cost=3 time=60") {
    Engine e("an engine"); e.addInputVariable(in("a")); e.addOutputVariable(out("o")); e.addOutputVariable(out("p")); e.addRuleBlock(new RuleBlock("b")); e.addRuleBlock(new RuleBlock("")); FactoryManager* m = FactoryManager::instance();
    int at = sx_choice("at", 2); RuleBlock* b = e.getRuleBlock(at); OutputVariable* o = e.getOutputVariable(at); for (int i = 0; i < 2; ++i) e.getRuleBlock(i)->setActivation(new General);
    if (SUB == 0) { std::vector<S> n = m->tnorm()->available(); b->setConjunction(m->tnorm()->constructObject(n[sx_choice("c", (int)n.size())])); b->setImplication(m->tnorm()->constructObject(n[sx_choice("i", (int)n.size())])); e.getRuleBlock(1 - at)->setImplication(new EinsteinProduct); }
    if (SUB == 1) { std::vector<S> n = m->snorm()->available(); b->setDisjunction(m->snorm()->constructObject(n[sx_choice("d", (int)n.size())])); o->setAggregation(m->snorm()->constructObject(n[sx_choice("a", (int)n.size())])); e.getOutputVariable(1 - at)->setAggregation(new EinsteinSum); }
    if (SUB == 2) { std::vector<S> n = m->defuzzifier()->available(); o->setDefuzzifier(m->defuzzifier()->constructObject(n[sx_choice("f", (int)n.size())])); e.getOutputVariable(1 - at)->setDefuzzifier(new WeightedSum); }
    if (SUB == 3) { static const char* const w[][2] = {{"NONE", ""}, {"MIN", "Minimum"}, {"PROD", "AlgebraicProduct"}, {"BDIF", "BoundedDifference"}, {"DPROD", "DrasticProduct"}, {"EPROD", "EinsteinProduct"}, {"HPROD", "HamacherProduct"}, {"NMIN", "NilpotentMinimum"}}; static const char* const s[][2] = {{"NONE", ""}, {"MAX", "Maximum"}, {"ASUM", "AlgebraicSum"}, {"BSUM", "BoundedSum"}, {"NSUM", "NormalizedSum"}, {"DSUM", "DrasticSum"}, {"ESUM", "EinsteinSum"}, {"HSUM", "HamacherSum"}, {"NMAX", "NilpotentMaximum"}, {"UnboundedSum", "UnboundedSum"}}; static const char* const f[][2] = {{"NONE", ""}, {"COG", "Centroid"}, {"COA", "Bisector"}, {"LM", "SmallestOfMaximum"}, {"RM", "LargestOfMaximum"}, {"MM", "MeanOfMaximum"}, {"COGS", "WeightedAverage"}, {"COGSS", "WeightedSum"}};
        int x = sx_choice("x", 8), y = sx_choice("y", 10), u = sx_choice("u", 8); std::unique_ptr<Engine> r(FclImporter().fromString(S("FUNCTION_BLOCK e\nVAR_OUTPUT\no: REAL;\nEND_VAR\nDEFUZZIFY o\nMETHOD : ") + f[u][0] + ";\nACCU : " + s[y][0] + ";\nEND_DEFUZZIFY\nRULEBLOCK b\nAND : " + w[x][0] + ";\nOR : " + s[9 - y][0] + ";\nACT : " + w[7 - x][0] + ";\nEND_RULEBLOCK\nEND_FUNCTION_BLOCK\n"));
        OutputVariable* p = r->getOutputVariable(0); RuleBlock* q = r->getRuleBlock(0); struct L { static bool is(const Norm* n, const char* c) { return n ? n->className() == c : !*c; } };
        sx_check(L::is(p->getAggregation(), s[y][1]) && L::is(q->getConjunction(), w[x][1]) && L::is(q->getDisjunction(), s[9 - y][1]) && L::is(q->getImplication(), w[7 - x][1]) && (p->getDefuzzifier() ? p->getDefuzzifier()->className() == f[u][1] : !*f[u][1]), "operators are read by the names of the format"); return; }
    vary(e); std::unique_ptr<Engine> f(again(&e)); sx_check(sameEngine(f.get(), &e), "operators come back for every part");
}
CASE(rules, "real", 4, 4, "cost=3 time=60") { // SUB = number of rules of the first block
    static const char* const t[] = {"if a is low then o is k", "if a is not low and (b is very high or a is any) then o is somewhat k and p is l with 0.25", "if o is k or b is low then p is l with 0.5", "if a is missing then o is k", "not a rule: at all"};
    Engine e("e"); e.addInputVariable(in("a")); e.addInputVariable(in("b")); e.addOutputVariable(out("o")); e.addOutputVariable(out("p"));
    for (int k = 0; k < 2; ++k) { RuleBlock* b = new RuleBlock(k ? "" : "first block"); b->setActivation(new General); e.addRuleBlock(b);
        for (int i = 0; i < (k ? 1 : SUB); ++i) { char nm[8]; std::snprintf(nm, sizeof nm, "r%d%d", k, i); Rule* r = new Rule; r->setText(t[sx_choice(nm, 5)]); try { r->load(&e); } catch (fl::Exception&) { } b->addRule(r); } }
    vary(e); std::unique_ptr<Engine> f(again(&e)); sx_check(sameEngine(f.get(), &e), "rule blocks and rules come back in order, with text and weight, loaded exactly if they are good");
}
CASE(names, "real", 4, 4, "cost=3 time=120 max_paths=8000") {
    int n = SUB % 2 + 1; S w; char nm[8]; for (int i = 0; i < n; ++i) { std::snprintf(nm, sizeof nm, "c%d", i); int b = sx_byte(nm); sx_assume((b > 32) & (b < 127)); if (SUB >= 2) sx_assume((b != '#') & (b != ';') & (b != '/')); w += (char)b; }
    Engine e("e"); InputVariable* v = in("a"); OutputVariable* o = out("o"); RuleBlock* b = new RuleBlock("b"); b->setActivation(new General); e.addInputVariable(v); e.addOutputVariable(o); e.addRuleBlock(b);
    if (SUB < 2) { v->setName(w); v->getTerm(0)->setName(w + "t"); o->setName(w + "o"); o->getTerm(1)->setName(w); std::unique_ptr<Engine> f(again(&e));
        sx_check(f->getInputVariable(0)->getName() == Op::validName(w) && f->getInputVariable(0)->getTerm(0)->getName() == Op::validName(w + "t") && f->getOutputVariable(0)->getName() == Op::validName(w + "o") && f->getOutputVariable(0)->getTerm(1)->getName() == Op::validName(w) && f->getInputVariable(0)->numberOfTerms() == 2, "names come back as valid names"); }
    else { e.setName(w + " x " + w); b->setName(w + " y"); std::unique_ptr<Engine> f(again(&e)); sx_check(sameEngine(f.get(), &e), "names of engines and rule blocks come back"); }
}
static const char* const text[] = {"FUNCTION_BLOCK sample", "VAR_INPUT", "a: REAL;", "b: REAL;", "END_VAR", "VAR_OUTPUT", "o: REAL;", "END_VAR", "FUZZIFY a", "ENABLED : TRUE;", "RANGE := (0 .. 1);", "TERM low := Ramp 1 0;", "TERM high := (0, 0) (1, 1);", "END_FUZZIFY", "FUZZIFY b", "RANGE := (-inf .. inf);", "TERM d := Triangle 0 1 2 0.5;", "END_FUZZIFY",
    "DEFUZZIFY o", "ENABLED : TRUE;", "RANGE := (0 .. 1);", "TERM k := 1;", "TERM l := Linear 1 2 3;", "TERM f := Function a*2;", "METHOD : COG;", "ACCU : MAX;", "DEFAULT := nan | NC;", "LOCK : PREVIOUS | RANGE;", "END_DEFUZZIFY", "RULEBLOCK rules", "ENABLED : TRUE;", "AND : MIN;", "OR : MAX;", "ACT : PROD;", "RULE 1 : if a is low and b is d then o is k;", "RULE 2 : if a is high then o is l with 0.5;", "END_RULEBLOCK", "END_FUNCTION_BLOCK"};
static const int N = 38;
static std::vector<S> lines() { return std::vector<S>(text, text + N); }
static bool odd(const Engine* e) { for (size_t i = 0; i < e->variables().size(); ++i) for (size_t j = 0; j < e->variables()[i]->numberOfTerms(); ++j) if (const Discrete* d = dynamic_cast<const Discrete*>(e->variables()[i]->getTerm(j))) if (d->xy().empty() || d->getHeight() != 1.0) return true;
    std::vector<Variable*> v = e->variables(); for (size_t i = 0; i < v.size(); ++i) for (size_t j = 0; j < i; ++j) if (v[i]->getName() == v[j]->getName()) return true; return false; } // has no points to write, or a height, or two variables of one name
static int judge(const S& t, std::unique_ptr<Engine>* keep = 0) {
    std::unique_ptr<Engine> e, f; int how = 0; try { e.reset(FclImporter().fromString(t)); } catch (std::exception&) { how = 1; } catch (...) { how = 2; }
    sx_check(how < 2, "a text is refused with an error of the standard kind, or imported"); if (how) return 0;
    if (!odd(e.get())) { try { f.reset(again(e.get())); } catch (std::exception&) { } sx_check(!!f, "an engine that was imported can be exported and imported"); if (f) sx_check(sameEngine(f.get(), e.get()), "and is the same again"); }
    if (keep) *keep = std::move(e);
    return 1;
}
CASE(layouts, "real", 8, 8, "cost=3 time=60") {
    std::vector<S> l = lines(); int at = sx_choice("at", N); std::unique_ptr<Engine> e(FclImporter().fromString(Op::join(l, "\n"))), f; size_t c = l[at].find(':');
    if (SUB == 0) l[at] += "   # a comment: x=1"; if (SUB == 1) l[at] += " // a comment := (x)"; if (SUB == 2) l.insert(l.begin() + at, sx_choice("what", 2) ? "% a comment" : "  \t "); if (SUB == 3) l[at] = "  " + l[at] + " \t\r"; if (SUB == 4 && c != S::npos) l[at] = l[at].substr(0, c) + "  " + l[at].substr(c); if (SUB == 5) l[at] = Op::findReplace(l[at], ";", ""); if (SUB == 6 && at != 34 && at != 35) l[at] = Op::findReplace(l[at], " ", "   "); if (SUB == 7) { static const char* const p[][2] = {{"(", "( "}, {")", " )"}, {", ", ","}, {" .. ", ".."}, {":=", " :="}}; int k = sx_choice("p", 5); l[at] = Op::findReplace(l[at], p[k][0], p[k][1]); }
    f.reset(FclImporter().fromString(Op::join(l, "\n"))); const OutputVariable* o = f->getOutputVariable(0); sx_check(sameEngine(f.get(), e.get()) && o->isLockPreviousValue() && o->isLockValueInRange() && o->isEnabled() && f->getInputVariable(0)->isEnabled() && f->getRuleBlock(0)->isEnabled() && o->numberOfTerms() == 3 && f->getInputVariable(0)->numberOfTerms() == 2 && f->getRuleBlock(0)->getRule(1)->isLoaded(), "comments, blank lines, white space and semicolons do not matter");
}
CASE(keys, "real", 1, 1, "cost=2 time=60") {
    std::vector<S> l = lines(); int en = sx_choice("enabled", 2), oe = sx_choice("output", 2), be = sx_choice("block", 2), lk = sx_choice("lock", 5), nc = sx_choice("nc", 2); scalar d = sx_real("default", -100, 100), a = sx_real("min", -100, 100), b = sx_real("max", -100, 100), p = sx_real("point", -8, 8); static const char* const k[] = {"LOCK : PREVIOUS;", "LOCK : RANGE;", "LOCK : PREVIOUS | RANGE;", "LOCK : RANGE|PREVIOUS;", ""};
    l[9] = en ? "ENABLED : TRUE;" : "ENABLED : FALSE;"; l[19] = oe ? "ENABLED : TRUE;" : "ENABLED : FALSE;"; l[30] = be ? "ENABLED : TRUE;" : "ENABLED : FALSE;"; l[20] = "RANGE := (" + Op::str(a) + " .. " + Op::str(b) + ");"; l[12] = "TERM high := (" + Op::str(p) + ", 0) (" + Op::str(a) + ", " + Op::str(b) + ");"; l[26] = "DEFAULT := " + Op::str(d) + (nc ? " | NC;" : ";"); l[27] = k[lk]; if (sx_choice("order", 2) && !nc) std::swap(l[26], l[27]);
    std::unique_ptr<Engine> e(FclImporter().fromString(Op::join(l, "\n"))); const OutputVariable* o = e->getOutputVariable(0); const Discrete* t = dynamic_cast<const Discrete*>(e->getInputVariable(0)->getTerm(1)); bool prev = lk == 0 || lk == 2 || lk == 3, range = lk >= 1 && lk <= 3; if (lk == 4) prev = nc; 
    sx_check((e->getInputVariable(0)->isEnabled() == (en == 1)) & (o->isEnabled() == (oe == 1)) & (e->getRuleBlock(0)->isEnabled() == (be == 1)) & (o->isLockPreviousValue() == prev) & (o->isLockValueInRange() == range) & eq(o->getDefaultValue(), d) & eq(o->getMinimum(), a) & eq(o->getMaximum(), b), "flags, default value, locks and ranges are read");
    sx_check(t && t->xy().size() == 2 && eq(t->xy(0).first, p) & (t->xy(0).second == 0) & eq(t->xy(1).first, a) & eq(t->xy(1).second, b), "points are read in order");
}
CASE(edited, "real", 4, 4, "cost=4 time=120") {
    std::vector<S> l = lines(); int at = sx_choice("at", N);
    if (SUB == 0) { l.erase(l.begin() + at); judge(Op::join(l, "\n")); }
    if (SUB == 1) { l.insert(l.begin() + at, l[at]); judge(Op::join(l, "\n")); }
    if (SUB == 2) { if (at + 1 == N) at = 0; std::swap(l[at], l[at + 1]); judge(Op::join(l, "\n")); }
    if (SUB == 3) { l.resize(at + 1); S t = Op::join(l, "\n"); int cut = sx_choice("cut", 16); if (cut >= (int)l[at].size()) cut = 0; judge(t.substr(0, t.size() - cut)); }
}
CASE(bytes, "real", 20, 30, "cost=8 time=150 max_paths=20000") {
    static const struct { int line; const char *a, *b; } at[] = {{0, "FUNCTION_BLOCK s", "s"}, {2, "a", ": REAL;"}, {4, "RANGE := (0", " .. 1);"}, {4, "RANGE := ", "(0 .. 1);"}, {5, "TERM low", " := (0, 1) (1, 0);"}, {5, "TERM low := (0", ", 1) (1, 0);"}, {6, "DEFAULT :=", ";"}, {6, "DEFAULT := 0", "| NC;"}, {7, "RULE", " 1 : if a is low then o is k;"}, {7, "AND : ", "MIN;"}};
    static const char* const base[] = {"FUNCTION_BLOCK s", "VAR_INPUT", "a: REAL;", "END_VAR\nVAR_OUTPUT\no: REAL;\nEND_VAR\nFUZZIFY a", "RANGE := (0 .. 1);", "TERM low := 1;", "DEFAULT := 0;", "AND : MIN;"};
    int k = SUB % 10, n = SUB / 10 + 1; S w, s, t; char nm[8]; for (int i = 0; i < n; ++i) { std::snprintf(nm, sizeof nm, "c%d", i); int b = sx_byte(nm); if (SUB >= 20) sx_assume((b >= 32) & (b < 127)); w += (char)b; }
    s = at[k].a + w + at[k].b; for (int i = 0; i < 8; ++i) { t += (i == at[k].line ? s : S(base[i])) + "\n"; if (i == 5) t += "END_FUZZIFY\nDEFUZZIFY o\nTERM k := 1;\n"; if (i == 6) t += "END_DEFUZZIFY\nRULEBLOCK r\n"; } judge(t + "END_RULEBLOCK\nEND_FUNCTION_BLOCK\n");
}
CASE(defects, "real", 1, 1, "cost=1 time=60") {
    static const char* const d[][2] = {{"0", "FUNCTION sample"}, {"1", "VAR_IN"}, {"1", "FUZZIFY a"}, {"2", "a REAL;"}, {"2", "a: REAL: 1;"}, {"2", "c: REAL;"}, {"4", ""}, {"4", "END_FUZZIFY"}, {"6", "p: REAL;"}, {"8", "FUZZIFY"}, {"8", "FUZZIFY c"}, {"8", "FUZZIFY o"}, {"8", "DEFUZZIFY a"}, {"9", "ENABLED : YES;"}, {"9", "ENABLED : true;"}, {"9", "ENABLED TRUE;"}, {"9", "ENABLED : TRUE : FALSE;"}, {"9", "LOCK : RANGE;"}, {"9", "DEFAULT := 0;"}, {"9", "METHOD : COG;"}, {"10", "RANGE : (0 .. 1);"}, {"10", "RANGE := (0);"}, {"10", "RANGE := (0 1);"}, {"10", "RANGE := (0 .. x);"}, {"10", "RANGE := (x .. 1);"}, {"10", "RANGE := (0 .. 1 .. 2);"}, {"10", "RANGE := ;"}, {"10", "RANGES := (0 .. 1);"},
        {"11", "TERM low;"}, {"11", "TERM low :=;"}, {"11", "TERM low Ramp 1 0;"}, {"11", "TERM;"}, {"11", "TERM low := Slope 1 0;"}, {"11", "TERM low := Ramp 1;"}, {"11", "TERM low := Ramp 1 x;"}, {"12", "TERM high := (0, 0) (x, 1);"}, {"16", "TERM d := Triangle 0 1;"}, {"18", "DEFUZZIFY"}, {"18", "DEFUZZIFY p"}, {"20", "RANGE := (0 .. z);"}, {"21", "TERM k := x;"}, {"23", "TERM f := Function a*;"}, {"23", "TERM f := Function z*2;"}, {"24", "METHOD : MIDDLE;"}, {"24", "METHOD COG;"}, {"25", "ACCU : MIN;"}, {"25", "ACCU MAX;"}, {"26", "DEFAULT := zero;"}, {"26", "DEFAULT : 0;"}, {"26", "DEFAULT := 0 | LOCK;"}, {"27", "LOCK : ALL;"}, {"27", "LOCK : PREVIOUS | ALL;"}, {"27", "LOCK PREVIOUS;"}, {"31", "AND : MAX;"}, {"32", "OR : MIN;"}, {"33", "ACT : SUM;"}, {"33", "WITH : MIN;"}};
    const int n = sizeof d / sizeof *d; int i = sx_choice("i", n); std::vector<S> l = lines(); l[std::atoi(d[i][0])] = d[i][1]; sx_check(judge(Op::join(l, "\n")) == 0, "a text with a defect is refused");
}
// rules that cannot be loaded are kept, and do not stop the import; parts are parts
CASE(lenient, "real", 1, 1, "cost=1 time=60") {
    static const char* const r[] = {"if a is low then o is missing", "nothing", "if a is low", "if a is low then o is k with x", ""}; int i = sx_choice("i", 5); std::vector<S> l = lines(); l[34] = S("RULE 1 : ") + r[i] + ";"; std::unique_ptr<Engine> e; int ok = judge(Op::join(l, "\n"), &e);
    sx_check(ok == 1 && e->getRuleBlock(0)->numberOfRules() == 2 && e->getRuleBlock(0)->getRule(0)->getText() == r[i] && !e->getRuleBlock(0)->getRule(0)->isLoaded() && e->getRuleBlock(0)->getRule(1)->isLoaded(), "a rule that is not well formed is kept but not loaded");
    l = lines(); l.push_back("anything"); ok = judge(Op::join(l, "\n"), &e); sx_check(ok == 1 && e->numberOfRuleBlocks() == 1, "what follows the end of the function block is not read");
}
