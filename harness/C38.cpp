// Components are kept in ordered lists: adding, inserting, replacing, removing and looking up by position or name act on exactly the element named; owners delete what they hold, once.
// BOUNDS: lists of inputs, outputs, rule blocks, terms, rules and activated terms, starting with 0-2 elements with any one-byte names (equal names too); every sequence of 2 (thorough 3) operations at any position; any probe name and position
// BOUNDS: values of 1-3 variables by name, any doubles; accessors with any values; construction with 0-2 elements of each list, loaded or not
// ASSUME: positions of insertions are within the list (std::vector::insert)
#include "compare.h"
using namespace fl;
static int alive = 0;
struct CIn : InputVariable { CIn(const S& n = "") : InputVariable(n) { ++alive; } ~CIn() { --alive; } };
struct COut : OutputVariable { COut(const S& n = "") : OutputVariable(n) { ++alive; } ~COut() { --alive; } };
struct CBlock : RuleBlock { CBlock(const S& n = "") : RuleBlock(n) { ++alive; } ~CBlock() { --alive; } };
struct CTerm : Constant { CTerm(const S& n = "") : Constant(n, 1) { ++alive; } ~CTerm() { --alive; } };
struct CRule : Rule { CRule(const S& n = "") : Rule(n) { ++alive; } ~CRule() { --alive; } };
// the lists behind one interface
struct Inputs { Engine o; typedef InputVariable T; static T* make(const S& n) { return new CIn(n); } enum { NAMED = 1, SET = 1, REMN = 1 }; void add(T* t) { o.addInputVariable(t); } void insert(T* t, size_t i) { o.insertInputVariable(t, i); } T* set(T* t, size_t i) { return o.setInputVariable(t, i); } T* get(size_t i) const { return o.getInputVariable(i); } T* get(const S& n) const { return o.getInputVariable(n); } bool has(const S& n) const { return o.hasInputVariable(n); } T* remove(size_t i) { return o.removeInputVariable(i); } T* remove(const S& n) { return o.removeInputVariable(n); } size_t size() const { return o.numberOfInputVariables(); } const std::vector<T*>& all() const { return static_cast<const Engine&>(o).inputVariables(); } std::vector<T*>& mut() { return o.inputVariables(); } void assign(const std::vector<T*>& v) { o.setInputVariables(v); } static S name(const T* t) { return t->getName(); } };
struct Outputs { Engine o; typedef OutputVariable T; static T* make(const S& n) { return new COut(n); } enum { NAMED = 1, SET = 1, REMN = 1 }; void add(T* t) { o.addOutputVariable(t); } void insert(T* t, size_t i) { o.insertOutputVariable(t, i); } T* set(T* t, size_t i) { return o.setOutputVariable(t, i); } T* get(size_t i) const { return o.getOutputVariable(i); } T* get(const S& n) const { return o.getOutputVariable(n); } bool has(const S& n) const { return o.hasOutputVariable(n); } T* remove(size_t i) { return o.removeOutputVariable(i); } T* remove(const S& n) { return o.removeOutputVariable(n); } size_t size() const { return o.numberOfOutputVariables(); } const std::vector<T*>& all() const { return static_cast<const Engine&>(o).outputVariables(); } std::vector<T*>& mut() { return o.outputVariables(); } void assign(const std::vector<T*>& v) { o.setOutputVariables(v); } static S name(const T* t) { return t->getName(); } };
struct Blocks { Engine o; typedef RuleBlock T; static T* make(const S& n) { return new CBlock(n); } enum { NAMED = 1, SET = 1, REMN = 1 }; void add(T* t) { o.addRuleBlock(t); } void insert(T* t, size_t i) { o.insertRuleBlock(t, i); } T* set(T* t, size_t i) { return o.setRuleBlock(t, i); } T* get(size_t i) const { return o.getRuleBlock(i); } T* get(const S& n) const { return o.getRuleBlock(n); } bool has(const S& n) const { return o.hasRuleBlock(n); } T* remove(size_t i) { return o.removeRuleBlock(i); } T* remove(const S& n) { return o.removeRuleBlock(n); } size_t size() const { return o.numberOfRuleBlocks(); } const std::vector<T*>& all() const { return static_cast<const Engine&>(o).ruleBlocks(); } std::vector<T*>& mut() { return o.ruleBlocks(); } void assign(const std::vector<T*>& v) { o.setRuleBlocks(v); } static S name(const T* t) { return t->getName(); } };
struct Terms { Variable o; typedef Term T; static T* make(const S& n) { return new CTerm(n); } enum { NAMED = 1, SET = 0, REMN = 0 }; void add(T* t) { o.addTerm(t); } void insert(T* t, size_t i) { o.insertTerm(t, i); } T* set(T*, size_t) { return 0; } T* get(size_t i) const { return o.getTerm(i); } T* get(const S& n) const { return o.getTerm(n); } bool has(const S& n) const { return o.hasTerm(n); } T* remove(size_t i) { return o.removeTerm(i); } T* remove(const S&) { return 0; } size_t size() const { return o.numberOfTerms(); } const std::vector<T*>& all() const { return static_cast<const Variable&>(o).terms(); } std::vector<T*>& mut() { return o.terms(); } void assign(const std::vector<T*>& v) { o.setTerms(v); } static S name(const T* t) { return t->getName(); } };
struct Rules { RuleBlock o; typedef Rule T; static T* make(const S& n) { return new CRule(n); } enum { NAMED = 0, SET = 0, REMN = 0 }; void add(T* t) { o.addRule(t); } void insert(T* t, size_t i) { o.insertRule(t, i); } T* set(T*, size_t) { return 0; } T* get(size_t i) const { return o.getRule(i); } T* get(const S&) const { return 0; } bool has(const S&) const { return false; } T* remove(size_t i) { return o.removeRule(i); } T* remove(const S&) { return 0; } size_t size() const { return o.numberOfRules(); } const std::vector<T*>& all() const { return static_cast<const RuleBlock&>(o).rules(); } std::vector<T*>& mut() { return o.rules(); } void assign(const std::vector<T*>& v) { o.setRules(v); } static S name(const T* t) { return t->getText(); } };
template <typename L> static void history(int start, int ops) {
    typedef typename L::T T; alive = 0; char nm[8]; std::vector<T*> m, gone; {
        L l; for (int i = 0; i < start; ++i) { std::snprintf(nm, sizeof nm, "n%d", i); S n(1, (char)sx_byte(nm)); T* t = L::make(n); l.add(t); m.push_back(t); }
        for (int i = 0; i < ops; ++i) {
            std::snprintf(nm, sizeof nm, "o%d", i); int op = sx_choice(nm, 4 + L::SET + L::REMN); if (!L::SET && op == 4) op = 5; std::snprintf(nm, sizeof nm, "m%d", i); S n = op == 3 ? S() : S(1, (char)sx_byte(nm)); std::snprintf(nm, sizeof nm, "i%d", i); size_t at = op == 0 || op == 3 || op == 5 ? 0 : sx_choice(nm, (int)m.size() + 1);
            if (op == 0) { T* t = L::make(n); l.add(t); m.push_back(t); }
            else if (op == 1) { T* t = L::make(n); l.insert(t, at); m.insert(m.begin() + at, t); }
            else if (op == 2) { T* r = 0; bool out = false; try { r = l.remove(at); } catch (std::exception&) { out = true; } sx_check(out == (at >= m.size()) && (out || r == m[at]), "removing gives the element at the position, none beyond the end"); if (at < m.size()) { gone.push_back(m[at]); m.erase(m.begin() + at); } }
            else if (op == 3) { std::vector<T*> v; for (size_t k = m.size(); k-- > 0;) v.push_back(m[k]); l.assign(v); m = v; }
            else if (op == 4) { T* t = L::make(n); T* r = 0; bool out = false; try { r = l.set(t, at); } catch (std::exception&) { out = true; } sx_check(out == (at >= m.size()) && (out || r == m[at]), "replacing gives the element replaced, none beyond the end"); if (at < m.size()) { gone.push_back(m[at]); m[at] = t; } else gone.push_back(t); }
            else { T* r = 0; bool missing = false; size_t w = m.size(); for (size_t k = m.size(); k-- > 0;) if (L::name(m[k]) == n) w = k; try { r = l.remove(n); } catch (fl::Exception&) { missing = true; } sx_check(missing == (w == m.size()) && (missing || r == m[w]), "removing by name gives the first element of that name, an error if there is none"); if (w < m.size()) { gone.push_back(m[w]); m.erase(m.begin() + w); } }
        }
        sx_check(l.size() == m.size() && l.all() == m && l.mut() == m, "the elements in order"); size_t at = sx_choice("at", (int)m.size() + 1); T* g = 0; bool out = false; try { g = l.get(at); } catch (std::exception&) { out = true; } sx_check(out == (at >= m.size()) && (out || g == m[at]), "the element at the position, an error beyond the end");
        if (L::NAMED) { S p(1, (char)sx_byte("p")); T* w = 0; for (size_t k = m.size(); k-- > 0;) if (L::name(m[k]) == p) w = m[k]; T* r = 0; bool missing = false; try { r = l.get(p); } catch (fl::Exception&) { missing = true; } sx_check(l.has(p) == (w != 0) && missing == (w == 0) && r == w, "the first element of that name, an error if there is none"); }
        sx_check(alive == (int)(m.size() + gone.size()), "nothing is deleted while in use");
    } sx_check(alive == (int)gone.size(), "the owner deletes the elements it holds, not those removed"); for (size_t i = 0; i < gone.size(); ++i) delete gone[i]; sx_check(alive == 0, "each once");
}
#define N (SUB % 3)
#define OPS (THOROUGH ? (SUB < 3 ? 2 : 3) : 2)
CASE(inputs, "real", 3, 6, "cost=4 time=120 max_paths=60000") { history<Inputs>(N, OPS); }
CASE(outputs, "real", 3, 6, "cost=4 time=120 max_paths=60000") { history<Outputs>(N, OPS); }
CASE(blocks, "real", 3, 6, "cost=4 time=120 max_paths=60000") { history<Blocks>(N, OPS); }
CASE(terms, "real", 3, 6, "cost=4 time=120 max_paths=60000") { history<Terms>(N, OPS); }
CASE(rules, "real", 3, 6, "cost=4 time=120 max_paths=60000") { history<Rules>(N, OPS); }
CASE(activated, "real", 3, 3, "cost=3 time=60") { // the activated terms of a fuzzy output (kept by value)
    Constant t("t", 1), u("u", 2); Minimum mn_; char nm[8]; Aggregated a("a", 0, 1); std::vector<std::pair<const Term*, scalar> > m; for (int i = 0; i < SUB; ++i) { std::snprintf(nm, sizeof nm, "d%d", i); scalar d = sx_real(nm, 0, 1); a.addTerm(i ? &u : &t, d, &mn_); m.push_back(std::make_pair(i ? &u : &t, d)); }
    for (int i = 0; i < (THOROUGH ? 3 : 2); ++i) { std::snprintf(nm, sizeof nm, "o%d", i); int op = sx_choice(nm, 5); std::snprintf(nm, sizeof nm, "e%d", i); scalar d = op == 2 || op == 4 ? 0 : sx_real(nm, 0, 1);
        if (op == 0) { a.addTerm(&u, d, &mn_); m.push_back(std::make_pair((const Term*)&u, d)); } else if (op == 1) { a.addTerm(Activated(&t, d, &mn_)); m.push_back(std::make_pair((const Term*)&t, d)); } else if (op == 2) { std::snprintf(nm, sizeof nm, "i%d", i); size_t at = sx_choice(nm, (int)m.size() + 1); bool out = false, right = false; try { const Activated& r = a.removeTerm(at); right = at < m.size() && (r.getTerm() == m[at].first) & (r.getDegree() == m[at].second) & (r.getImplication() == &mn_); } catch (std::exception&) { out = true; } sx_check(out == (at >= m.size()) && (out || right), "removing gives the activation at the position"); if (at < m.size()) m.erase(m.begin() + at); } else if (op == 3) { a.term(&t, d, &mn_); m.push_back(std::make_pair((const Term*)&t, d)); } else { a.clear(); m.clear(); } }
    bool ok = a.numberOfTerms() == m.size() && a.isEmpty() == m.empty() && a.terms().size() == m.size(); for (size_t i = 0; i < m.size() && ok; ++i) ok = ok & (a.getTerm(i).getTerm() == m[i].first) & (a.getTerm(i).getDegree() == m[i].second) & (a.terms()[i].getDegree() == m[i].second); sx_check(ok, "the activations in order"); bool out = false; try { a.getTerm(m.size()); } catch (std::exception&) { out = true; } sx_check(out, "none beyond the end");
    std::vector<Activated> two; two.push_back(Activated(&u, 0.5, &mn_)); two.push_back(Activated(&t, 0.25, &mn_)); a.terms(two); sx_check(a.numberOfTerms() == m.size() + 2 && a.terms().back().getDegree() == 0.25, "several are appended"); a.setTerms(two); sx_check(a.numberOfTerms() == 2 && a.getTerm(0).getDegree() == 0.5, "or take the place of all");
}
static scalar any(const char* nm) { return sx_is_real_mode() ? sx_real(nm, -100, 100) : sx_fp(nm); }
CASE(values, "fp", 3, 3, "cost=3 time=60") { // values by name go to and come from the variable of that name
    int n = SUB + 1; Engine e; char nm[8]; std::vector<S> names; std::vector<scalar> in, out; for (int i = 0; i < n; ++i) { std::snprintf(nm, sizeof nm, "n%d", i); S s(1, (char)sx_byte(nm)); names.push_back(s); InputVariable* v = new InputVariable(s); OutputVariable* o = new OutputVariable(s); std::snprintf(nm, sizeof nm, "a%d", i); in.push_back(any(nm)); std::snprintf(nm, sizeof nm, "b%d", i); out.push_back(any(nm)); v->setValue(in[i]); o->setValue(out[i]); e.addInputVariable(v); e.addOutputVariable(o); }
    S p(1, (char)sx_byte("p")); int w = -1; for (int i = n; i-- > 0;) if (names[i] == p) w = i; scalar x = any("x"); bool bad = false; try { e.setInputValue(p, x); } catch (fl::Exception&) { bad = true; } sx_check(bad == (w < 0), "unknown names are refused"); if (w >= 0) in[w] = x; bool ok = true; for (int i = 0; i < n; ++i) ok = ok & same(e.getInputVariable(i)->getValue(), in[i]) & same(e.getOutputVariable(i)->getValue(), out[i]); sx_check(ok, "the value of the input variable of that name, no other");
    bad = false; scalar y = 0; try { y = e.getOutputValue(p); } catch (fl::Exception&) { bad = true; } sx_check(bad == (w < 0) && (bad || same(y, out[w])), "the value of the output variable of that name"); std::vector<Variable*> all = e.variables(); bool order = all.size() == 2u * n; for (int i = 0; i < n && order; ++i) order = all[i] == e.getInputVariable(i) && all[n + i] == e.getOutputVariable(i) && all[i]->type() == Variable::Input && all[n + i]->type() == Variable::Output; sx_check(order, "all variables, inputs first");
}
CASE(variable, "fp", 2, 2, "cost=1 time=30") { // what is set is what is read
    std::unique_ptr<Variable> v(SUB ? (Variable*)new OutputVariable : new InputVariable); scalar lo = any("lo"), hi = any("hi"), x = any("x"), d = any("d"), p = any("p"); sx_check(v->getName().empty() && v->getDescription().empty() && v->isEnabled() && !v->isLockValueInRange() && v->terms().empty() && v->getMinimum() == -fl::inf && v->getMaximum() == fl::inf && v->getValue() != v->getValue(), "defaults"); S n(2, (char)sx_byte("n")), t(1, (char)sx_byte("t")); bool en = sx_bool("en"), lk = sx_bool("lk"); v->setName(n); v->setDescription(t); v->setEnabled(en); v->setRange(lo, hi); v->setValue(x); v->setLockValueInRange(lk);
    sx_check(v->getName() == n && v->getDescription() == t, "texts"); sx_check((v->isEnabled() == en) & (v->isLockValueInRange() == lk) & same(v->getMinimum(), lo) & same(v->getMaximum(), hi) & same(v->getValue(), x) & same(v->range(), hi - lo), "flags and numbers"); v->setMinimum(d); sx_check(same(v->getMinimum(), d) & same(v->getMaximum(), hi), "minimum alone"); v->setMaximum(p); sx_check(same(v->getMinimum(), d) & same(v->getMaximum(), p), "maximum alone"); if (OutputVariable* o = dynamic_cast<OutputVariable*>(v.get())) { sx_check(o->fuzzyOutput()->getName() == n, "the fuzzy output has the name of its variable"); sx_check(same(o->fuzzyOutput()->getMinimum(), d) & same(o->fuzzyOutput()->getMaximum(), p), "the fuzzy output has the range of its variable"); }
    if (OutputVariable* o = dynamic_cast<OutputVariable*>(v.get())) { sx_check(same(o->getPreviousValue(), fl::nan) & same(o->getDefaultValue(), fl::nan) & !o->isLockPreviousValue() && !o->getDefuzzifier() && !o->getAggregation(), "defaults of outputs"); o->setDefaultValue(d); o->setPreviousValue(p); o->setLockPreviousValue(lk); Centroid* c = new Centroid; Maximum* m = new Maximum; o->setDefuzzifier(c); o->setAggregation(m); sx_check((o->isLockPreviousValue() == lk) & same(o->getDefaultValue(), d) & same(o->getPreviousValue(), p) && o->getDefuzzifier() == c && o->getAggregation() == m, "as set"); o->setDefuzzifier(fl::null); o->setAggregation(fl::null); sx_check(!o->getDefuzzifier() && !o->getAggregation(), "removed"); }
}
CASE(locked, "fp", 2, 2, "cost=2 time=60") { // a variable locked in its range, closed or open on either side, takes the nearest value of the range
    std::unique_ptr<Variable> v(SUB ? (Variable*)new OutputVariable("v") : new InputVariable("v")); scalar lo = any("lo"), hi = any("hi"), x = any("x"), y = any("y"); sx_assume(lo <= hi); bool en = sx_bool("en");
    v->setEnabled(en); v->setRange(lo, hi); v->setLockValueInRange(true); v->setValue(x); scalar w = x < lo ? lo : x > hi ? hi : x; sx_check(same(v->getValue(), w), "the nearest value of the range"); sx_check((x == x) | (v->getValue() != v->getValue()), "NaN stays");
    v->setLockValueInRange(false); sx_check(same(v->getValue(), w), "unlocking leaves the value"); v->setValue(y); sx_check(same(v->getValue(), y), "any value if not locked");
}
CASE(others, "fp", 1, 1, "cost=1 time=30") { // engines, rule blocks, rules and terms
    S n(1, (char)sx_byte("n")), t(2, (char)sx_byte("t")); scalar w = any("w"), h = any("h"), g = any("g"); bool en = sx_bool("en"); Engine e; e.setName(n); e.setDescription(t); sx_check(e.getName() == n && e.getDescription() == t, "engine"); Engine f(n, t); sx_check(f.getName() == n && f.getDescription() == t && f.variables().empty() && f.ruleBlocks().empty(), "engine constructed");
    RuleBlock b; sx_check(b.isEnabled() && !b.getConjunction() && !b.getDisjunction() && !b.getImplication() && !b.getActivation() && b.rules().empty(), "defaults of blocks"); b.setName(n); b.setDescription(t); b.setEnabled(en); TNorm *c = new Minimum, *i = new AlgebraicProduct; SNorm* d = new Maximum; Activation* a = new First; b.setConjunction(c); b.setDisjunction(d); b.setImplication(i); b.setActivation(a); sx_check(b.getName() == n && b.getDescription() == t && b.getConjunction() == c && b.getDisjunction() == d && b.getImplication() == i && b.getActivation() == a, "blocks"); sx_check(b.isEnabled() == en, "enabled");
    RuleBlock q(n, std::vector<Rule*>(1, new Rule("x")), new Last, new DrasticProduct, new DrasticSum, new EinsteinProduct); sx_check(q.getName() == n && q.numberOfRules() == 1 && q.getRule(0)->getText() == "x" && q.getActivation()->className() == "Last" && q.getConjunction()->className() == "DrasticProduct" && q.getDisjunction()->className() == "DrasticSum" && q.getImplication()->className() == "EinsteinProduct", "blocks constructed"); RuleBlock s; s.conjunction(new Minimum).disjunction(new Maximum).implication(new AlgebraicProduct).activation(new Highest(2)).rule(new Rule("y")); s.rules(std::vector<Rule*>(1, new Rule("z"))); sx_check(s.getConjunction()->className() == "Minimum" && s.getDisjunction()->className() == "Maximum" && s.getImplication()->className() == "AlgebraicProduct" && s.getActivation()->className() == "Highest" && s.numberOfRules() == 2 && s.getRule(0)->getText() == "y" && s.getRule(1)->getText() == "z", "blocks chained");
    Rule r; sx_check(r.isEnabled() && r.getWeight() == 1 && r.getText().empty() && !r.isTriggered() && r.getActivationDegree() == 0 && !r.isLoaded(), "defaults of rules"); r.setText(t); r.setEnabled(en); r.setWeight(w); r.setActivationDegree(g); r.setTriggered(en); sx_check(r.getText() == t, "rules"); sx_check((r.isEnabled() == en) & same(r.getWeight(), w) & same(r.getActivationDegree(), g) & (r.isTriggered() == en), "numbers of rules"); Rule k(t, w); sx_check(k.getText() == t && same(k.getWeight(), w), "rules constructed");
    Triangle m; sx_check(m.getName().empty() && m.getHeight() == 1, "defaults of terms"); m.setName(n); m.setHeight(h); sx_check(m.getName() == n && same(m.getHeight(), h), "terms"); Activated z(&m, w, i); sx_check(z.getTerm() == &m && same(z.getDegree(), w) && z.getImplication() == i, "activated"); z.setDegree(g); z.setTerm(fl::null); z.setImplication(fl::null); sx_check(!z.getTerm() && same(z.getDegree(), g) && !z.getImplication(), "as set");
    Aggregated y(n, w, h, new Maximum); sx_check(y.getName() == n && same(y.getMinimum(), w) && same(y.getMaximum(), h) && y.getAggregation() && y.isEmpty(), "aggregated"); y.range(g, w).aggregation(new DrasticSum); sx_check(same(y.getMinimum(), g) && same(y.getMaximum(), w) && y.getAggregation()->className() == "DrasticSum" && same(y.range(), w - g), "as chained");
}
CASE(construct, "real", 1, 1, "cost=3 time=60") { // an engine constructed from its parts, loaded or not
    alive = 0; { int in = sx_choice("in", 3), out = 1 + sx_choice("out", 2), nb = sx_choice("blocks", 3); bool load = sx_choice("load", 2), defaulted = load && sx_choice("default", 2); std::vector<InputVariable*> is; std::vector<OutputVariable*> os; std::vector<RuleBlock*> bs; scalar x = sx_real("x", 0.01, 0.99); static const char* const ni[] = {"a", "b"}; static const char* const no[] = {"o", "p"};
        for (int i = 0; i < in; ++i) { is.push_back(new CIn(ni[i])); is[i]->addTerm(new Ramp("t", 0, 1)); is[i]->setValue(x); } for (int i = 0; i < out; ++i) { os.push_back(new COut(no[i])); os[i]->setRange(0, 10); os[i]->setDefuzzifier(new WeightedSum); os[i]->addTerm(new Constant("k", 2 + i)); os[i]->addTerm(new Function("f", "1 + 2")); std::vector<scalar> c(in + 1, 3.0); os[i]->addTerm(new Linear("l", c)); }
        for (int i = 0; i < nb; ++i) { bs.push_back(new CBlock("r")); bs[i]->setActivation(new General); bs[i]->setImplication(new AlgebraicProduct); bs[i]->addRule(new Rule(in ? "if a is t then o is k" : "if o is k then o is k")); if (in) bs[i]->addRule(new Rule("if a is t then o is l and o is f")); }
        Engine* e = defaulted ? new Engine("e", "d", is, os, bs) : new Engine("e", "d", is, os, bs, load); sx_check(e->getName() == "e" && e->getDescription() == "d" && static_cast<const Engine*>(e)->inputVariables() == is && static_cast<const Engine*>(e)->outputVariables() == os && static_cast<const Engine*>(e)->ruleBlocks() == bs, "the parts given, in order"); bool ok = true; for (int i = 0; i < nb; ++i) for (size_t r = 0; r < bs[i]->numberOfRules(); ++r) ok = ok && bs[i]->getRule(r)->isLoaded() == load; sx_check(ok, "rules are loaded if asked for (default)");
        if (load && in && nb) { e->process(); sx_check(near(e->getOutputValue("o"), nb * (x * 2 + x * 3.0 * (1 + in * x) + x * 3), 1e-6), "terms and rules refer to the engine"); } sx_check(alive == in + out + nb, "nothing is deleted while in use"); delete e; } sx_check(alive == 0, "an engine deletes its parts");
}
CASE(assign, "real", 5, 5, "cost=2 time=40") { // assigning over something deletes what it held, also to itself
    alive = 0; scalar x = sx_real("x", -1, 1); int had = sx_choice("had", 3), has = sx_choice("has", 3); bool self = sx_choice("self", 2);
    if (SUB == 0) { Engine a("a"), b("b"); for (int i = 0; i < had; ++i) { a.addInputVariable(new CIn("u")); a.addOutputVariable(new COut("u")); a.addRuleBlock(new CBlock("u")); } for (int i = 0; i < has; ++i) { b.addInputVariable(new InputVariable("v", x)); b.addOutputVariable(new OutputVariable("v", x)); b.addRuleBlock(new RuleBlock("v")); } if (self) { Engine& c = a; a = c; sx_check(alive == 3 * had && a.inputVariables().size() == (size_t)had && a.outputVariables().size() == (size_t)had && a.ruleBlocks().size() == (size_t)had && a.getName() == "a", "itself"); } else { a = b; bool ok = alive == 0 && a.getName() == "b" && a.inputVariables().size() == (size_t)has && a.outputVariables().size() == (size_t)has && a.ruleBlocks().size() == (size_t)has; for (int i = 0; i < has && ok; ++i) ok = a.getInputVariable(i)->getName() == "v" && a.getInputVariable(i) != b.getInputVariable(i) && a.getInputVariable(i)->getMinimum() == x; sx_check(ok, "another"); } }
    else if (SUB == 1) { Variable a("a"), b("b", x, 2); for (int i = 0; i < had; ++i) a.addTerm(new CTerm("u")); for (int i = 0; i < has; ++i) b.addTerm(new Constant("v", x)); if (self) { Variable& c = a; a = c; sx_check(alive == had && a.numberOfTerms() == (size_t)had, "itself"); } else { a = b; bool ok = alive == 0 && a.numberOfTerms() == (size_t)has && a.getName() == "b"; for (int i = 0; i < has && ok; ++i) ok = a.getTerm(i) != b.getTerm(i) && a.getTerm(i)->membership(0) == x; sx_check(ok && a.getMinimum() == x, "another"); } }
    else if (SUB == 2) { OutputVariable a("a"), b("b", x, 2); a.setDefuzzifier(new Centroid); a.setAggregation(new Maximum); if (had == 2) b.setDefuzzifier(new Bisector(7)); if (has == 2) b.setAggregation(new DrasticSum); for (int i = 0; i < had; ++i) a.addTerm(new CTerm("u")); b.setDefaultValue(x); if (self) { OutputVariable& c = a; a = c; sx_check(alive == had && a.numberOfTerms() == (size_t)had && a.getDefuzzifier()->className() == "Centroid" && a.getAggregation()->className() == "Maximum", "itself"); } else { a = b; sx_check(alive == 0 && a.terms().empty() && a.getName() == "b" && a.fuzzyOutput()->getName() == "b" && (a.getDefuzzifier() != 0) == (had == 2) && (a.getAggregation() != 0) == (has == 2) && a.getDefaultValue() == x && a.fuzzyOutput()->getMinimum() == x, "another"); if (had == 2) sx_check(a.getDefuzzifier() != b.getDefuzzifier(), "with its own defuzzifier"); } }
    else if (SUB == 3) { RuleBlock a("a"), b("b"); a.setConjunction(new Minimum); a.setActivation(new First); for (int i = 0; i < had; ++i) a.addRule(new CRule("u")); for (int i = 0; i < has; ++i) b.addRule(new Rule("v", x)); if (self) { RuleBlock& c = a; a = c; sx_check(alive == had && a.numberOfRules() == (size_t)had && a.getConjunction(), "itself"); } else { a = b; bool ok = alive == 0 && a.numberOfRules() == (size_t)has && a.getName() == "b" && !a.getConjunction() && !a.getActivation(); for (int i = 0; i < has && ok; ++i) ok = a.getRule(i) != b.getRule(i) && a.getRule(i)->getText() == "v" && a.getRule(i)->getWeight() == x; sx_check(ok, "another"); } }
    else { Rule a("u", x), b("v", 0.5); b.setEnabled(had > 0); if (self) { Rule& c = a; a = c; sx_check(a.getText() == "u" && a.getWeight() == x, "itself"); } else { a = b; sx_check(a.getText() == "v" && a.getWeight() == 0.5 && a.isEnabled() == (had > 0), "another"); } Aggregated p("p", x, 1, new Maximum), q("q", 0, x); Constant k("k", x); p.addTerm(&k, 0.5, fl::null); q.addTerm(&k, x, fl::null); q.addTerm(&k, 1, fl::null); if (self) { Aggregated& c = p; p = c; sx_check(p.numberOfTerms() == 1 && p.getAggregation() && p.getMinimum() == x, "itself"); } else { p = q; sx_check(p.numberOfTerms() == 2 && !p.getAggregation() && p.getMaximum() == x && p.getName() == "q" && p.getTerm(0).getDegree() == x, "another"); } }
    if (SUB != 0 || !self) sx_check(alive == 0 || self, "what was held is deleted");
}
