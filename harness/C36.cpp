// Factories: what is registered is exactly what can be constructed, and importers, rules and formulas use the factories of the manager.
// BOUNDS: the 6 construction factories and the function factory: every key registered by default, any text of 0-2 bytes, any key with one byte changed, inserted or deleted at any place; histories of 3 (thorough 4) operations with any keys of one byte; 1 custom object of every kind used by rules, formulas and imports
// ASSUME: the functions of the compiled C++11 library (log1p and inverse hyperbolic functions included); objects registered under the empty key are null by design
#include <algorithm>
#include "compare.h"
using namespace fl;
typedef std::vector<S> V;
static V words(const char* t) { V v = Op::split(t, " "); v.push_back(""); std::sort(v.begin(), v.end()); return v; }
static V expected(int k) {
    static const char* const w[] = {"AlgebraicProduct BoundedDifference DrasticProduct EinsteinProduct HamacherProduct Minimum NilpotentMinimum",
        "AlgebraicSum BoundedSum DrasticSum EinsteinSum HamacherSum Maximum NilpotentMaximum NormalizedSum UnboundedSum",
        "First General Highest Last Lowest Proportional Threshold",
        "Bisector Centroid LargestOfMaximum MeanOfMaximum SmallestOfMaximum WeightedAverage WeightedSum",
        "Bell Binary Concave Constant Cosine Discrete Function Gaussian GaussianProduct Linear PiShape Ramp Rectangle SShape Sigmoid SigmoidDifference SigmoidProduct Spike Trapezoid Triangle ZShape",
        "any extremely not seldom somewhat very"};
    return words(w[k]);
}
// one interface over the six factories: name of a new object (null: "-"), refused: "!"
static S made(FactoryManager* m, int k, const S& key) {
    try {
        if (k == 0) { std::unique_ptr<TNorm> t(m->tnorm()->constructObject(key)); return t.get() ? t->className() : "-"; }
        if (k == 1) { std::unique_ptr<SNorm> t(m->snorm()->constructObject(key)); return t.get() ? t->className() : "-"; }
        if (k == 2) { std::unique_ptr<Activation> t(m->activation()->constructObject(key)); return t.get() ? t->className() : "-"; }
        if (k == 3) { std::unique_ptr<Defuzzifier> t(m->defuzzifier()->constructObject(key)); return t.get() ? t->className() : "-"; }
        if (k == 4) { std::unique_ptr<Term> t(m->term()->constructObject(key)); return t.get() ? t->className() : "-"; }
        std::unique_ptr<Hedge> t(m->hedge()->constructObject(key)); return t.get() ? t->name() : "-";
    } catch (fl::Exception&) { return "!"; }
}
static bool has(FactoryManager* m, int k, const S& key) { return k == 0 ? m->tnorm()->hasConstructor(key) : k == 1 ? m->snorm()->hasConstructor(key) : k == 2 ? m->activation()->hasConstructor(key) : k == 3 ? m->defuzzifier()->hasConstructor(key) : k == 4 ? m->term()->hasConstructor(key) : m->hedge()->hasConstructor(key); }
static bool gets(FactoryManager* m, int k, const S& key) { return k == 0 ? m->tnorm()->getConstructor(key) != fl::null : k == 1 ? m->snorm()->getConstructor(key) != fl::null : k == 2 ? m->activation()->getConstructor(key) != fl::null : k == 3 ? m->defuzzifier()->getConstructor(key) != fl::null : k == 4 ? m->term()->getConstructor(key) != fl::null : m->hedge()->getConstructor(key) != fl::null; }
static V available(FactoryManager* m, int k) { return k == 0 ? m->tnorm()->available() : k == 1 ? m->snorm()->available() : k == 2 ? m->activation()->available() : k == 3 ? m->defuzzifier()->available() : k == 4 ? m->term()->available() : m->hedge()->available(); }
static bool in(const V& v, const S& s) { for (size_t i = 0; i < v.size(); ++i) if (v[i] == s) return true; return false; }
static void probe(FactoryManager* m, int k, const S& key) {
    bool known = in(expected(k), key); S got = made(m, k, key);
    sx_check(got == (known ? (key.empty() ? S("-") : key) : S("!")), "registered keys give an object of that name, others are refused");
    sx_check(has(m, k, key) == known && gets(m, k, key) == (known && !key.empty()), "has and get agree with what can be constructed");
}
CASE(keys, "real", 6, 6, "cost=2 time=60") { // SUB: factory
    FactoryManager m; V e = expected(SUB), a = available(&m, SUB); std::sort(a.begin(), a.end()); sx_check(a == e, "the documented objects are available, each once"); S key = e[sx_choice("key", e.size())]; probe(&m, SUB, key);
    FactoryManager* i = FactoryManager::instance(); sx_check(i == FactoryManager::instance() && made(i, SUB, key) == made(&m, SUB, key), "the common manager has the same objects");
}
CASE(texts, "real", 6, 6, "cost=4 time=100 max_paths=20000") { FactoryManager m; int n = sx_choice("n", THOROUGH ? 4 : 3); S key; for (int i = 0; i < n; ++i) key += (char)sx_byte(i == 0 ? "b0" : i == 1 ? "b1" : "b2"); probe(&m, SUB, key); }
CASE(edits, "real", 6, 6, "cost=4 time=100 max_paths=20000") { // one byte changed, inserted or deleted
    FactoryManager m; V e = expected(SUB); e.erase(e.begin()); S key = e[THOROUGH ? sx_choice("key", e.size()) : sx_choice("key", e.size() > 8 ? 8 : e.size()) * (e.size() > 8 ? e.size() / 8 : 1)]; int at = sx_choice("at", key.size()), how = sx_choice("how", 4); char b = how == 3 ? 'x' : (char)sx_byte("b");
    if (how == 0) key[at] = b; else if (how == 1) key.insert(at, 1, b); else if (how == 2) key = key.substr(0, at + 1) + b; else key.erase(at, 1); probe(&m, SUB, key);
}
CASE(fresh, "real", 1, 1, "cost=1 time=30") { // every construction gives an object of its own, in its initial state
    FactoryManager m; scalar a = sx_real("a", -8, 8), h = sx_real("h", -2, 2); Triangle* t = dynamic_cast<Triangle*>(m.term()->constructObject("Triangle")); std::unique_ptr<Term> ot(t); t->setVertexA(a); t->setHeight(h); t->setName("t");
    std::unique_ptr<Term> u(m.term()->constructObject("Triangle")); Triangle* v = dynamic_cast<Triangle*>(u.get()); sx_check(v && v != t && Op::isNaN(v->getVertexA()) && v->getHeight() == 1 && v->getName().empty(), "a new term is in its initial state"); sx_check((t->getVertexA() == a) & (t->getHeight() == h), "and leaves the other alone");
    std::unique_ptr<Hedge> x(m.hedge()->constructObject("very")), y(m.hedge()->constructObject("very")); sx_check(x.get() != y.get() && x->hedge(0.5) == 0.25, "hedges too");
}
CASE(defuzzifiers, "real", 1, 1, "cost=2 time=40") { // named construction with its resolution or type
    FactoryManager m; V e = expected(3); S key = e[sx_choice("key", e.size())]; int r = sx_int("r", 1, 2000), ty = sx_choice("type", 3); WeightedDefuzzifier::Type t = ty == 0 ? WeightedDefuzzifier::Automatic : ty == 1 ? WeightedDefuzzifier::TakagiSugeno : WeightedDefuzzifier::Tsukamoto;
    std::unique_ptr<Defuzzifier> d(m.defuzzifier()->constructDefuzzifier(key, r, t)), i(m.defuzzifier()->constructIntegral(key, r)), w(m.defuzzifier()->constructWeighted(key, t));
    IntegralDefuzzifier *di = dynamic_cast<IntegralDefuzzifier*>(d.get()), *ii = dynamic_cast<IntegralDefuzzifier*>(i.get()); WeightedDefuzzifier *dw = dynamic_cast<WeightedDefuzzifier*>(d.get()), *ww = dynamic_cast<WeightedDefuzzifier*>(w.get()); bool isW = key.find("Weighted") == 0;
    sx_check((d.get() ? d->className() : S()) == key && (i.get() ? i->className() : S()) == key && (w.get() ? w->className() : S()) == key, "the defuzzifier of that name"); if (key.empty()) return;
    sx_check((di != 0) == !isW && (dw != 0) == isW && (ii != 0) == !isW && (ww != 0) == isW, "of its kind"); if (di) sx_check((di->getResolution() == r) & (ii->getResolution() == r), "with the resolution given"); else sx_check(dw->getType() == t && ww->getType() == t, "with the type given");
}
// ---- histories against a map
static TNorm* mkA() { return new Minimum; }
static TNorm* mkB() { return new AlgebraicProduct; }
struct Model { V keys; std::vector<int> val; void put(const S& k, int v) { for (size_t i = 0; i < keys.size(); ++i) if (keys[i] == k) { val[i] = v; return; } keys.push_back(k); val.push_back(v); } void del(const S& k) { for (size_t i = 0; i < keys.size(); ++i) if (keys[i] == k) { keys.erase(keys.begin() + i); val.erase(val.begin() + i); return; } } int get(const S& k) const { for (size_t i = 0; i < keys.size(); ++i) if (keys[i] == k) return val[i]; return -1; } };
CASE(construction_history, "real", 3, 3, "cost=5 time=120 max_paths=30000") { // SUB: number of operations
    typedef ConstructionFactory<TNorm*> F; std::unique_ptr<F> f(new F("things")); Model m; char nm[8]; int n = SUB + (THOROUGH ? 2 : 1);
    for (int i = 0; i < n; ++i) { std::snprintf(nm, sizeof nm, "k%d", i); S k(1, (char)sx_byte(nm)); std::snprintf(nm, sizeof nm, "o%d", i); int op = n >= 3 && i == 0 ? 0 : sx_choice(nm, 6);
        if (op < 3) { f->registerConstructor(k, op == 0 ? &mkA : op == 1 ? &mkB : fl::null); m.put(k, op); } else if (op == 3) { f->deregisterConstructor(k); m.del(k); } else if (op == 4) { std::unique_ptr<F> c(f->clone()); f->registerConstructor("later", &mkA); f->deregisterConstructor(k); f.reset(c.release()); } else { F c("other"); c.registerConstructor("gone", &mkA); c = *f; f->deregisterConstructor(k); *f = c; } }
    S p(1, (char)sx_byte("p")); int want = m.get(p); sx_check(f->hasConstructor(p) == (want >= 0) && f->getConstructor(p) == (want == 0 ? &mkA : want == 1 ? &mkB : fl::null), "the constructor registered last for that key");
    bool refused = false; TNorm* t = 0; try { t = f->constructObject(p); } catch (fl::Exception&) { refused = true; } std::unique_ptr<TNorm> own(t); sx_check(refused == (want < 0) && (t != 0) == (want == 0 || want == 1) && (!t || t->className() == (want == 0 ? "Minimum" : "AlgebraicProduct")), "constructs the object registered last for that key");
    V a = f->available(); bool all = a.size() == m.keys.size() && f->constructors().size() == a.size(); for (size_t i = 0; i < m.keys.size() && all; ++i) all = in(a, m.keys[i]); sx_check(all, "the registered keys, each once"); for (size_t i = 1; i < a.size(); ++i) sx_check(a[i - 1] < a[i], "in order"); sx_check(f->name() == "things", "keeps its name");
}
// objects that count how many of them exist
static int alive = 0, deleted = 0;
struct Thing { int v; Thing(int v) : v(v) { ++alive; } Thing(const Thing& o) : v(o.v) { ++alive; } ~Thing() { --alive; ++deleted; } Thing* clone() const { return new Thing(*this); } };
CASE(cloning_history, "real", 3, 3, "cost=5 time=120 max_paths=30000") {
    typedef CloningFactory<Thing*> F; alive = deleted = 0; char nm[8]; int n = SUB + (THOROUGH ? 2 : 1); {
        std::unique_ptr<F> f(new F("things")); Model m;
        for (int i = 0; i < n; ++i) { std::snprintf(nm, sizeof nm, "k%d", i); S k(1, (char)sx_byte(nm)); std::snprintf(nm, sizeof nm, "o%d", i); int op = n >= 3 && i == 0 ? 0 : sx_choice(nm, 6);
            if (op == 0) { f->registerObject(k, new Thing(10 + i)); m.put(k, 10 + i); } else if (op == 1) { f->registerObject(k, fl::null); m.put(k, 0); } else if (op == 2) { f->deregisterObject(k); m.del(k); } else if (op == 3) { std::unique_ptr<F> c(f->clone()); f->registerObject("later", new Thing(1)); f->deregisterObject(k); f.reset(c.release()); }
            else if (op == 4) { F c("other"); c.registerObject("gone", new Thing(2)); c.registerObject(k, new Thing(3)); c = *f; f->clear(); sx_check(f->available().empty(), "cleared"); *f = c; } else { if (f->hasObject(k)) f->registerObject(k, f->getObject(k)); } }
        int live = 0; for (size_t i = 0; i < m.val.size(); ++i) live += m.val[i] > 0; sx_check(alive == live, "the factory holds exactly the objects registered: replaced and removed ones are deleted, copies have their own");
        S p(1, (char)sx_byte("p")); int want = m.get(p); Thing* o = f->getObject(p); sx_check(f->hasObject(p) == (want >= 0) && (o != 0) == (want > 0) && (!o || o->v == want), "the object registered last for that key");
        bool refused = false; Thing* t = 0; try { t = f->cloneObject(p); } catch (fl::Exception&) { refused = true; } std::unique_ptr<Thing> own(t); sx_check(refused == (want < 0) && (t != 0) == (want > 0) && (!t || (t->v == want && t != o)), "clones the object registered last for that key");
        V a = f->available(); bool all = a.size() == m.keys.size() && f->objects().size() == a.size(); for (size_t i = 0; i < m.keys.size() && all; ++i) all = in(a, m.keys[i]); sx_check(all, "the registered keys, each once"); sx_check(f->name() == "things", "keeps its name");
    } sx_check(alive == 0, "the factory deletes its objects");
}
// ---- functions
struct Fn { const char* name; int arity; };
CASE(functions, "real", 1, 1, "cost=2 time=60") {
    static const Fn fn[] = {{"abs", 1}, {"acos", 1}, {"acosh", 1}, {"asin", 1}, {"asinh", 1}, {"atan", 1}, {"atan2", 2}, {"atanh", 1}, {"ceil", 1}, {"cos", 1}, {"cosh", 1}, {"eq", 2}, {"exp", 1}, {"fabs", 1}, {"floor", 1}, {"fmod", 2}, {"ge", 2}, {"gt", 2}, {"le", 2}, {"log", 1}, {"log10", 1}, {"log1p", 1}, {"lt", 2}, {"max", 2}, {"min", 2}, {"neq", 2}, {"pow", 2}, {"round", 1}, {"sin", 1}, {"sinh", 1}, {"sqrt", 1}, {"tan", 1}, {"tanh", 1}};
    static const Fn op[] = {{"!", 1}, {"%", 2}, {"*", 2}, {"+", 2}, {"-", 2}, {"/", 2}, {"^", 2}, {"and", 2}, {"or", 2}, {"~", 1}};
    FunctionFactory f; V names, ops, a = f.available(), fs = f.availableFunctions(), os = f.availableOperators(); for (size_t i = 0; i < sizeof fn / sizeof *fn; ++i) names.push_back(fn[i].name); for (size_t i = 0; i < sizeof op / sizeof *op; ++i) ops.push_back(op[i].name);
    sx_check(fs == names && os == ops && a.size() == fs.size() + os.size(), "the documented functions and operators, each once"); for (size_t i = 0; i < fs.size(); ++i) if (!in(a, fs[i])) sx_check(false, "functions are available"); for (size_t i = 0; i < os.size(); ++i) if (!in(a, os[i])) sx_check(false, "operators are available");
    int k = sx_choice("k", names.size() + ops.size()); bool isF = k < (int)names.size(); const Fn& w = isF ? fn[k] : op[k - names.size()]; std::unique_ptr<Function::Element> e(f.cloneObject(w.name)); Function::Element* o = f.getObject(w.name);
    sx_check(e.get() && e.get() != o && e->name == w.name && e->arity == w.arity && e->isFunction() == isF && e->isOperator() == !isF && (e->unary != 0) == (w.arity == 1) && (e->binary != 0) == (w.arity == 2) && e->unary == o->unary && e->binary == o->binary && e->precedence == o->precedence && e->associativity == o->associativity && e->description == o->description, "a clone is equal to what is registered");
}
CASE(function_texts, "real", 1, 1, "cost=3 time=60 max_paths=20000") { FunctionFactory f; int n = sx_choice("n", 3); S key; for (int i = 0; i < n; ++i) key += (char)sx_byte(i == 0 ? "b0" : "b1"); V a = f.available(); bool known = in(a, key); bool refused = false; std::unique_ptr<Function::Element> e; try { e.reset(f.cloneObject(key)); } catch (fl::Exception&) { refused = true; } sx_check(refused == !known && f.hasObject(key) == known && (f.getObject(key) != 0) == known && (!e.get() || e->name == key), "registered names only"); }
// ---- what is registered in the manager is what rules, formulas and importers use
static scalar ca, cb;
static scalar mine(scalar x) { return ca * x + cb; }
static scalar mine2(scalar x, scalar y) { return ca * x + cb * y; }
struct MyHedge : Hedge { S name() const FL_IOVERRIDE { return "mostly"; } scalar hedge(scalar x) const FL_IOVERRIDE { return mine(x); } MyHedge* clone() const FL_IOVERRIDE { return new MyHedge(*this); } static Hedge* constructor() { return new MyHedge; } };
struct MyNorm : TNorm { S className() const FL_IOVERRIDE { return "MyNorm"; } scalar compute(scalar a, scalar b) const FL_IOVERRIDE { return mine2(a, b); } MyNorm* clone() const FL_IOVERRIDE { return new MyNorm(*this); } static TNorm* constructor() { return new MyNorm; } };
struct MySum : SNorm { S className() const FL_IOVERRIDE { return "MySum"; } scalar compute(scalar a, scalar b) const FL_IOVERRIDE { return mine2(a, b); } MySum* clone() const FL_IOVERRIDE { return new MySum(*this); } static SNorm* constructor() { return new MySum; } };
struct MyTerm : Term { S className() const FL_IOVERRIDE { return "MyTerm"; } S parameters() const FL_IOVERRIDE { return ""; } void configure(const S&) FL_IOVERRIDE {} scalar membership(scalar x) const FL_IOVERRIDE { return mine(x); } MyTerm* clone() const FL_IOVERRIDE { return new MyTerm(*this); } static Term* constructor() { return new MyTerm; } };
struct MyDefuzzifier : Defuzzifier { S className() const FL_IOVERRIDE { return "MyDefuzzifier"; } scalar defuzzify(const Term*, scalar lo, scalar hi) const FL_IOVERRIDE { return mine2(lo, hi); } MyDefuzzifier* clone() const FL_IOVERRIDE { return new MyDefuzzifier(*this); } static Defuzzifier* constructor() { return new MyDefuzzifier; } };
struct MyActivation : Activation { S className() const FL_IOVERRIDE { return "MyActivation"; } S parameters() const FL_IOVERRIDE { return ""; } void configure(const S&) FL_IOVERRIDE {} void activate(RuleBlock* b) FL_IOVERRIDE { b->getRule(0)->deactivate(); b->getRule(0)->setActivationDegree(mine(1)); b->getRule(0)->trigger(b->getImplication()); } MyActivation* clone() const FL_IOVERRIDE { return new MyActivation(*this); } static Activation* constructor() { return new MyActivation; } };
static const char* const FLL = "Engine: e\nInputVariable: a\n  range: 0 1\n  term: t Ramp 0 1\n  term: m MyTerm\nInputVariable: b\n  range: 0 1\n  term: t Ramp 0 1\nOutputVariable: o\n  range: 0.25 0.5\n  aggregation: MySum\n  defuzzifier: MyDefuzzifier\n  term: c Constant 1\nOutputVariable: p\n  range: 0 1\n  defuzzifier: WeightedSum\n  term: c Function twice(a) - 1\nRuleBlock: r\n  conjunction: MyNorm\n  implication: MyNorm\n  activation: MyActivation\n  rule: if a is mostly t and b is t then p is c and o is mostly c\n";
struct Registered { int without; Registered(int w) : without(w) { FactoryManager* m = FactoryManager::instance(); if (w != 0) m->hedge()->registerConstructor("mostly", &MyHedge::constructor); if (w != 1) m->tnorm()->registerConstructor("MyNorm", &MyNorm::constructor); if (w != 2) m->snorm()->registerConstructor("MySum", &MySum::constructor); if (w != 3) m->term()->registerConstructor("MyTerm", &MyTerm::constructor); if (w != 4) m->defuzzifier()->registerConstructor("MyDefuzzifier", &MyDefuzzifier::constructor); if (w != 5) m->activation()->registerConstructor("MyActivation", &MyActivation::constructor); if (w != 6) m->function()->registerObject("twice", new Function::Element("twice", "custom", Function::Element::Function, &mine)); }
    ~Registered() { FactoryManager* m = FactoryManager::instance(); m->hedge()->deregisterConstructor("mostly"); m->tnorm()->deregisterConstructor("MyNorm"); m->snorm()->deregisterConstructor("MySum"); m->term()->deregisterConstructor("MyTerm"); m->defuzzifier()->deregisterConstructor("MyDefuzzifier"); m->activation()->deregisterConstructor("MyActivation"); m->function()->deregisterObject("twice"); } };
// everything was in use before the registration: nothing may remember the objects of that time
static void early(Engine& e) { std::unique_ptr<Engine> w(FllImporter().fromString("Engine: e\nInputVariable: a\n  range: 0 1\n  term: t Ramp 0 1\nOutputVariable: o\n  range: 0 1\n  aggregation: Maximum\n  defuzzifier: Centroid\n  term: c Ramp 0 1\nOutputVariable: p\n  range: 0 1\n  defuzzifier: WeightedSum\n  term: c Function sin(a) - 1\nRuleBlock: r\n  conjunction: Minimum\n  disjunction: Maximum\n  implication: Minimum\n  activation: General\n  rule: if a is very t and a is any then o is somewhat c and p is very c\n")); e = *w; sx_check(e.getRuleBlock(0)->getRule(0)->isLoaded(), "the default objects"); }
CASE(custom, "real", 1, 1, "cost=3 time=60") { // objects of one's own
    ca = sx_real("ca", 0.5, 2); cb = sx_real("cb", 0.125, 1); scalar x = sx_real("x", 0, 1), y = sx_real("y", 0, 1); crisp(x, 0); crisp(x, 1); crisp(y, 0); crisp(y, 1); { Engine w; early(w); } Registered reg(-1);
    std::unique_ptr<Engine> e(FllImporter().fromString(FLL)); sx_check(e->getInputVariable("a")->getTerm("m")->className() == "MyTerm" && (near(e->getInputVariable("a")->getTerm("m")->membership(x), ca * x + cb, 1e-9)), "terms");
    e->getInputVariable("a")->setValue(x); e->getInputVariable("b")->setValue(y); scalar deg = e->getRuleBlock(0)->getRule(0)->activateWith(e->getRuleBlock(0)->getConjunction(), fl::null); scalar h = ca * x + cb, want = ca * h + cb * y; sx_check(near(deg, want, 1e-9), "hedges and conjunction");
    e->process(); sx_check(near(e->getOutputValue("o"), ca * 0.25 + cb * 0.5, 1e-9), "defuzzifier"); const Aggregated* f = e->getOutputVariable("o")->fuzzyOutput(); sx_check(f->terms().size() == 1 && near(f->terms()[0].getDegree(), ca * (ca + cb) + cb, 1e-9) && f->terms()[0].getImplication() && f->terms()[0].getImplication()->className() == "MyNorm" && f->getAggregation()->className() == "MySum", "activation, implication and aggregation");
    sx_check(near(e->getOutputValue("p"), (ca + cb) * (ca * x + cb - 1), 1e-6), "functions in formulas"); std::unique_ptr<Engine> c(e->clone()); c->process(); sx_check(near(c->getOutputValue("o"), e->getOutputValue("o"), 1e-9) && near(c->getOutputValue("p"), e->getOutputValue("p"), 1e-6), "copies use them too"); S t = FllExporter().toString(e.get()); std::unique_ptr<Engine> r(FllImporter().fromString(t)); sx_check(FllExporter().toString(r.get()) == t, "exported by their names");
}
CASE(unregistered, "real", 1, 1, "cost=2 time=60") { // the same engine is refused as soon as one of them is missing
    ca = sx_real("ca", 0.5, 2); cb = sx_real("cb", 0.125, 1); int w = sx_choice("without", 7); Registered reg(w); bool refused = false; std::unique_ptr<Engine> e; try { e.reset(FllImporter().fromString(FLL)); } catch (std::exception&) { refused = true; }
    if (w == 0) sx_check(e.get() && !e->getRuleBlock(0)->getRule(0)->isLoaded(), "a rule with an unregistered hedge is not loaded"); else sx_check(refused, "unregistered objects are refused");
    Registered again(-1); std::unique_ptr<Engine> g(FllImporter().fromString(FLL)); sx_check(g->getRuleBlock(0)->getRule(0)->isLoaded(), "and accepted once registered");
}
CASE(configure, "real", 1, 1, "cost=2 time=60") { // Engine::configure by name uses the manager
    ca = 1; cb = sx_real("cb", 0.125, 1); Registered reg(-1); std::unique_ptr<Engine> e(FllImporter().fromString(FLL)); e->configure("MyNorm", "MySum", "MyNorm", "MySum", "MyDefuzzifier", "MyActivation"); RuleBlock* b = e->getRuleBlock(0); sx_check(b->getConjunction()->className() == "MyNorm" && b->getDisjunction()->className() == "MySum" && b->getImplication()->className() == "MyNorm" && b->getActivation()->className() == "MyActivation" && e->getOutputVariable("p")->getDefuzzifier()->className() == "MyDefuzzifier" && e->getOutputVariable("p")->fuzzyOutput()->getAggregation()->className() == "MySum", "the registered objects");
    e->process(); sx_check(near(e->getOutputValue("p"), cb, 1e-9), "and they are used"); bool refused = false; FactoryManager::instance()->snorm()->deregisterConstructor("MySum"); try { e->configure("MyNorm", "MySum", "MyNorm", "MySum", "MyDefuzzifier", "MyActivation"); } catch (fl::Exception&) { refused = true; } sx_check(refused, "unregistered objects are refused");
}
// ---- the manager
CASE(manager, "real", 6, 6, "cost=2 time=40") { // SUB: factory; copies are independent in both directions
    FactoryManager m; V before = available(&m, SUB); int how = sx_choice("how", 3); std::unique_ptr<FactoryManager> c(how == 0 ? m.clone() : how == 1 ? new FactoryManager(m) : new FactoryManager); if (how == 2) { c->hedge()->registerConstructor("gone", &MyHedge::constructor); *c = m; *c = *c; } sx_check(available(c.get(), SUB) == before, "a copy has the same objects"); S key = before[1 + sx_choice("key", before.size() - 1)];
    FactoryManager *x = sx_choice("which", 2) ? &m : c.get(), *y = x == &m ? c.get() : &m; if (SUB == 0) x->tnorm()->deregisterConstructor(key); else if (SUB == 1) x->snorm()->deregisterConstructor(key); else if (SUB == 2) x->activation()->deregisterConstructor(key); else if (SUB == 3) x->defuzzifier()->deregisterConstructor(key); else if (SUB == 4) x->term()->deregisterConstructor(key); else x->hedge()->deregisterConstructor(key);
    sx_check(made(x, SUB, key) == "!" && !in(available(x, SUB), key) && made(y, SUB, key) == key && available(y, SUB) == before, "removing from one leaves the other"); sx_check(!c->hedge()->hasConstructor("gone") && c->function()->available() == m.function()->available() && c->function() != m.function() && c->function()->getObject("max") != m.function()->getObject("max"), "functions are copied");
}
CASE(manager_set, "real", 1, 1, "cost=1 time=30") {
    FactoryManager m; TNormFactory* t = new TNormFactory; SNormFactory* s = new SNormFactory; ActivationFactory* a = new ActivationFactory; DefuzzifierFactory* d = new DefuzzifierFactory; TermFactory* r = new TermFactory; HedgeFactory* h = new HedgeFactory; FunctionFactory* f = new FunctionFactory; S k(1, (char)sx_byte("k")); t->registerConstructor(k, &mkA); m.setTnorm(t); m.setSnorm(s); m.setActivation(a); m.setDefuzzifier(d); m.setTerm(r); m.setHedge(h); m.setFunction(f);
    sx_check(m.tnorm() == t && m.snorm() == s && m.activation() == a && m.defuzzifier() == d && m.term() == r && m.hedge() == h && m.function() == f, "the factories set are the ones used"); std::unique_ptr<TNorm> o(m.tnorm()->constructObject(k)); sx_check(o.get() && o->className() == "Minimum", "with their objects");
    FactoryManager n(new TNormFactory, new SNormFactory, new ActivationFactory, new DefuzzifierFactory, new TermFactory, new HedgeFactory, new FunctionFactory); sx_check(made(&n, 0, "Minimum") == "Minimum" && made(&n, 1, "Maximum") == "Maximum" && made(&n, 2, "First") == "First" && made(&n, 3, "Centroid") == "Centroid" && made(&n, 4, "Ramp") == "Ramp" && made(&n, 5, "very") == "very" && n.function()->hasObject("max"), "each in its place");
    m.setTnorm(fl::null); m.setFunction(fl::null); std::unique_ptr<FactoryManager> c(m.clone()); sx_check(m.tnorm() == 0 && c->tnorm() == 0 && c->function() == 0 && c->snorm() && c->snorm() != s, "missing factories stay missing");
}
