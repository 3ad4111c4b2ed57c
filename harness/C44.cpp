// Notations: antecedents, consequents, formulas and components describe exactly what they hold, in each notation; what can be loaded again from its description is the same.
// BOUNDS: every antecedent tree of 1-4 propositions with and/or, written with full or only the needed parentheses, 0-2 hedges and any; conclusions of 1-3 propositions; formulas of up to 4 operators, functions and operands; every term kind with any parameters in [1,50]; engines of six kinds
#include "compare.h"
#include "engines.h"
#include "expr.h"
using namespace fl;
namespace {
typedef std::vector<S> Words;
Words cat(const Words& a, const Words& b, const Words& c = Words()) { Words r = a; r.insert(r.end(), b.begin(), b.end()); r.insert(r.end(), c.begin(), c.end()); return r; }
template <class F> bool refused(F f) { try { f(); } catch (fl::Exception&) { return true; } return false; }
struct Tree { Words pre, in, post; S text; bool leaf, isAnd; };
const char* const var[] = {"a", "b", "a", "o"}; const char* const terms[] = {"low", "mid", "high", "s"};
Tree leaf(int i, int style) { // style: 0 plain, 1 a hedge, 2 two hedges, 3 any, 4 hedge and any
    Tree t; S w = S(var[i]) + " is" + (style == 1 ? " not" : style == 2 ? " very not" : style == 4 ? " not" : ""); w += style > 2 ? " any" : S(" ") + terms[i]; t.text = w; t.pre = t.in = t.post = sx::split(w); t.leaf = true; t.isAnd = false; return t;
}
Tree node(bool conj, const Tree& l, const Tree& r, bool full) { Tree t; Words k(1, conj ? "and" : "or"); t.pre = cat(k, l.pre, r.pre); t.in = cat(l.in, k, r.in); t.post = cat(l.post, r.post, k); t.leaf = false; t.isAnd = conj; bool pl = !l.leaf && (full || (conj && !l.isAnd)), pr = !r.leaf; t.text = (pl ? "( " + l.text + " )" : l.text) + " " + k[0] + " " + (pr ? "( " + r.text + " )" : r.text); return t; }
Tree tree(int from, int n, int& id, bool full) { char b[8]; if (n == 1) { std::snprintf(b, sizeof b, "h%d", from); return leaf(from, from ? sx_choice(b, 2) * (1 + from) : sx_choice(b, 5)); } std::snprintf(b, sizeof b, "s%d", id); int k = 1 + (n > 2 ? sx_choice(b, n - 1) : 0); std::snprintf(b, sizeof b, "o%d", id); ++id; bool c = sx_choice(b, 2); Tree l = tree(from, k, id, full), r = tree(from + k, n - k, id, full); return node(c, l, r, full); }
}
CASE(antecedents, "real", 4, 4, "cost=3 time=60") { // SUB + 1 propositions
    std::unique_ptr<Engine> e(sx::build(sx::MAMDANI)); int id = 0; bool full = sx_choice("full", 2); Tree t = tree(0, SUB + 1, id, full); Antecedent a; sx_check(refused([&] { a.toPrefix(); }) & refused([&] { a.toInfix(); }) & refused([&] { a.toPostfix(); }) & refused([&] { a.toString(); }), "what is not loaded has no notation");
    a.load(t.text, e.get()); sx_check(a.getText() == t.text, "the text is the one loaded"); sx_check(sx::split(a.toPrefix()) == t.pre, "prefix: operators before their operands"); sx_check(sx::split(a.toInfix()) == t.in, "infix: operators between their operands"); sx_check(sx::split(a.toPostfix()) == t.post, "postfix: operators after their operands"); sx_check(a.toString() == a.toInfix() && a.toInfix(a.getExpression()) == a.toInfix(), "infix is the description");
    if (const Operator* o = dynamic_cast<const Operator*>(a.getExpression())) { sx_check(o->toString() == t.pre[0] && o->name == t.pre[0] && o->type() == Expression::Operator, "operators have their name"); Words l = sx::split(a.toPrefix(o->left)), r = sx::split(a.toPrefix(o->right)); sx_check(cat(Words(1, t.pre[0]), l, r) == t.pre, "and describe their parts"); } else sx_check(a.getExpression()->type() == Expression::Proposition && sx::split(a.getExpression()->toString()) == t.in, "a proposition is its own description");
    bool simple = t.text.find('(') == S::npos; if (simple) { Antecedent b; b.load(a.toString(), e.get()); sx_check(b.toPrefix() == a.toPrefix() && b.toPostfix() == a.toPostfix(), "the description without parentheses loads as the same antecedent"); }
    a.unload(); sx_check(!a.isLoaded() && a.getText() == t.text && refused([&] { a.toString(); }), "unloading keeps the text only"); a.load(e.get()); sx_check(sx::split(a.toPostfix()) == t.post, "which loads again");
}
CASE(consequents, "real", 3, 3, "cost=2 time=60") { // SUB + 1 conclusions
    std::unique_ptr<Engine> e(sx::build(sx::CHAINED)); static const char* const v[] = {"p", "o", "p"}; static const char* const m[] = {"s", "l"}; S t; char b[8]; for (int i = 0; i <= SUB; ++i) { std::snprintf(b, sizeof b, "h%d", i); int h = sx_choice(b, 3); std::snprintf(b, sizeof b, "t%d", i); t += (i ? " and " : "") + S(v[i]) + " is " + (h == 1 ? "very " : h == 2 ? "somewhat not " : "") + m[sx_choice(b, 2)]; }
    Consequent c; sx_check(c.toString().empty() && c.getText().empty() && !c.isLoaded(), "an empty one has no description"); c.load(t, e.get()); sx_check(sx::split(c.toString()) == sx::split(t) && c.getText() == t, "conclusions are described in order"); for (int i = 0; i <= SUB; ++i) { const Proposition* q = c.conclusions()[i]; Words w = sx::split(q->toString()); sx_check(w[0] == v[i] && w[1] == "is" && w.back() == q->term->getName() && w.size() == 3 + q->hedges.size(), "each with variable, hedges and term"); }
    Consequent d; d.load(c.toString(), e.get()); sx_check(d.toString() == c.toString(), "the description loads as the same consequent"); c.unload(); sx_check(c.toString().empty() && c.getText() == t, "unloading keeps the text only");
    S r = "if a is low then " + t + " with 0.25"; std::unique_ptr<Rule> u(Rule::parse(r, e.get())); sx_check(u->getText() == r && u->toString() == "rule: " + r && sx::split(u->getAntecedent()->toString()) == sx::split("a is low") && sx::split(u->getConsequent()->toString()) == sx::split(t), "a rule is its text, antecedent and consequent");
    Antecedent* a = new Antecedent; Consequent* k = new Consequent; a->load("b is high", e.get()); k->load("o is l", e.get()); u->setAntecedent(a); u->setConsequent(k); sx_check(u->getAntecedent() == a && u->getConsequent() == k && u->isLoaded() && u->getText() == r, "parts can be replaced"); scalar x = sx_real("x", -1, 1); e->getInputVariable("b")->setValue(x); e->getInputVariable("a")->setValue(-1); e->getOutputVariable("o")->fuzzyOutput()->clear(); u->activateWith(fl::null, fl::null); scalar deg = e->getInputVariable("b")->getTerm("high")->membership(x) * 0.25; sx_check(near(u->getActivationDegree(), deg, 1e-9), "the rule evaluates the new antecedent"); crisp(deg, 0); u->trigger(fl::null); const Aggregated* g = e->getOutputVariable("o")->fuzzyOutput(); sx_check((g->numberOfTerms() == 1) == (deg > 0), "and concludes with the new consequent");
    Proposition q; sx_check(q.toString() == "?" && q.type() == Expression::Proposition, "a proposition without variable is unknown"); q.variable = e->getInputVariable(0); sx_check(q.toString() == "a", "without term it is the variable"); q.term = q.variable->getTerm(1); sx_check(q.toString() == "a is mid", "and then with its term");
}
namespace {
struct N { Words pre, in, post; S text; bool leaf; int nodes; };
N num(int i) { static const char* const k[] = {"x", "y", "2.500", "x"}; N n; n.text = k[i % 4]; n.pre = n.in = n.post = Words(1, n.text); n.leaf = true; n.nodes = 0; return n; }
N un(const char* o, const N& a, bool fn) { N n; Words k(1, o); n.pre = cat(k, a.pre); n.post = cat(a.post, k); n.in = fn ? cat(cat(k, Words(1, "(")), a.in, Words(1, ")")) : cat(k, a.in); n.text = S(o) + " ( " + a.text + " )"; n.leaf = false; n.nodes = a.nodes + 1; return n; }
N bin(const char* o, const N& a, const N& b, bool fn) { N n; Words k(1, o); n.pre = cat(k, a.pre, b.pre); n.post = cat(a.post, b.post, k); n.in = fn ? cat(cat(k, Words(1, "(")), cat(a.in, b.in), Words(1, ")")) : cat(a.in, k, b.in); n.text = fn ? S(o) + " ( " + a.text + " , " + b.text + " )" : "( " + a.text + " ) " + o + " ( " + b.text + " )"; n.leaf = false; n.nodes = a.nodes + b.nodes + 1; return n; }
N make(int depth, int& id) { char b[8]; std::snprintf(b, sizeof b, "k%d", id); int k = depth ? sx_choice(b, id ? 5 : 7) : 0; int at = id++; static const char* const ops[] = {"+", "-", "*", "/", "^", "and", "or"}; switch (k) { case 0: return num(at); case 1: return un("~", make(depth - 1, id), false); case 2: return un("sin", make(depth - 1, id), true); case 3: { N l = make(depth - 1, id); return bin(ops[at % 7], l, make(depth > 1 ? depth - 2 : 0, id), false); } case 4: { N l = make(depth > 1 ? depth - 2 : 0, id); return bin("max", l, make(depth - 1, id), true); } case 5: { N l = make(depth - 1, id); return bin("and", l, make(depth - 1, id), false); } default: { N l = make(depth - 1, id); return bin("^", l, make(depth - 1, id), false); } } }
}
CASE(formulas, "real", 3, 3, "cost=3 time=60") { // SUB: depth
    int id = 0; N n = make(SUB == 0 ? 0 : SUB + 1, id); Function f("f"); f.variables["x"] = sx_real("x", 1, 2); f.variables["y"] = 3; f.load(n.text); const Function::Node* r = f.root(); sx_check(f.getFormula() == n.text, "the formula is the one loaded"); sx_check(sx::split(r->toPrefix()) == n.pre, "prefix: functions before their operands"); sx_check(sx::split(r->toInfix()) == n.in, "infix: operators between their operands"); sx_check(sx::split(r->toPostfix()) == n.post, "postfix: functions after their operands"); sx_check(sx::split(f.toPostfix(n.text)) == n.post || n.text.find("2.500") != S::npos, "as the parser sees it");
    sx_check((int)r->treeSize() == n.nodes, "the size is the number of operators and functions"); sx_check(r->value() == n.pre[0] && r->toString() == n.pre[0], "a node is its function or operand"); if (r->left.get()) sx_check(cat(Words(1, n.pre[0]), sx::split(r->toPrefix(r->left.get())), r->right.get() ? sx::split(r->toPrefix(r->right.get())) : Words()) == n.pre, "parts describe themselves");
    std::unique_ptr<Function::Node> c(r->clone()); sx_check(c->toPrefix() == r->toPrefix() && c->toInfix() == r->toInfix() && c->toPostfix() == r->toPostfix() && c->treeSize() == r->treeSize(), "a clone describes itself alike"); size_t both = r->treeSize(Function::Element::Operator) + r->treeSize(Function::Element::Function); sx_check(both == r->treeSize(), "nodes are operators or functions");
}
CASE(elements, "real", 1, 1, "cost=2 time=30") { // operators and functions of formulas describe themselves
    FunctionFactory* m = FactoryManager::instance()->function(); Words names = m->available(); int i = sx_choice("i", (int)names.size()); Function::Element* k = m->getObject(names[i]); S t = k->toString(); bool op = k->isOperator(); sx_check(op != k->isFunction() && t.find(op ? "Operator" : "Function") == 0 && t.find("name=" + names[i] + ",") != S::npos && t.find("description=" + k->description) != S::npos && t.find("arity=" + Op::str(k->arity)) != S::npos, "kind, name, description and arity are told"); if (op) sx_check(t.find("precedence=" + Op::str(k->precedence)) != S::npos && t.find("associativity=" + Op::str(k->associativity)) != S::npos, "and precedence of operators"); sx_check((t.find("unary") != S::npos) == (k->arity == 1) && (t.find("binary") != S::npos) == (k->arity == 2), "and how it is called"); std::unique_ptr<Function::Element> c(k->clone()); sx_check(c->toString().substr(0, t.rfind('=')) == t.substr(0, t.rfind('=')), "clones describe themselves alike"); }
CASE(components, "real", 6, 6, "cost=3 time=60") { // SUB: kind of engine; parts of an engine describe themselves as the language does
    std::unique_ptr<Engine> e(sx::build(SUB)); e->getInputVariable(0)->setRange(sx_real("lo", -50, -1), sx_real("hi", 1, 50)); e->setDescription(sx_choice("d", 2) ? "some text" : ""); bool en = sx_choice("enabled", 2); e->getInputVariable(1)->setEnabled(en); e->getRuleBlock(0)->setEnabled(en); FllExporter x; sx_check(e->toString() == x.toString(e.get()), "an engine");
    for (int i = 0; i < 2; ++i) { InputVariable* v = e->getInputVariable(i); Variable* b = v; sx_check(v->toString() == x.toString(v) && b->toString() == v->toString() && v->type() == Variable::Input, "inputs"); for (size_t j = 0; j < v->numberOfTerms(); ++j) sx_check(v->getTerm(j)->toString() == x.toString(v->getTerm(j)) && v->getTerm(j)->toString() == "term: " + v->getTerm(j)->getName() + " " + v->getTerm(j)->className() + " " + v->getTerm(j)->parameters(), "terms"); Variable plain(*v); sx_check(plain.toString() == x.toString(&plain) && plain.type() == Variable::None && plain.toString().find("Variable: " + v->getName()) == 0, "variables"); std::unique_ptr<Variable> c(b->clone()), d(plain.clone()); sx_check(c->type() == Variable::Input && c->toString() == v->toString() && d->type() == Variable::None && d->toString() == plain.toString(), "clones"); }
    for (size_t i = 0; i < e->numberOfOutputVariables(); ++i) { OutputVariable* v = e->getOutputVariable(i); Variable* b = v; sx_check(v->toString() == x.toString(v) && b->toString() == v->toString() && b->type() == Variable::Output, "outputs"); std::unique_ptr<Variable> c(b->clone()); sx_check(c->type() == Variable::Output && c->toString() == v->toString(), "clones"); sx_check(v->getDefuzzifier()->toString() == x.toString(v->getDefuzzifier()), "defuzzifiers"); }
    for (size_t i = 0; i < e->numberOfRuleBlocks(); ++i) { RuleBlock* b = e->getRuleBlock(i); sx_check(b->toString() == x.toString(b) && b->getActivation()->toString() == x.toString(b->getActivation()), "rule blocks and activation methods"); std::unique_ptr<RuleBlock> c(b->clone()); sx_check(c->toString() == b->toString() && c->numberOfRules() == b->numberOfRules(), "clones"); for (size_t j = 0; j < b->numberOfRules(); ++j) sx_check(b->getRule(j)->toString() == x.toString(b->getRule(j)) && b->getRule(j)->toString() == "rule: " + b->getRule(j)->getText(), "rules"); }
    std::unique_ptr<Engine> f(FllImporter().fromString(e->toString())); sx_check(cmp::eqEngine(f.get(), e.get()), "the description is the engine");
}
CASE(directions, "fp", 3, 3, "cost=2 time=60") { // SUB: Binary, Ramp, Sigmoid; every double
    scalar a = sx_fp("a"), b = sx_fp("b"); if (SUB == 0) { Binary t("t", a, b); sx_check(t.direction() == (b > a ? Binary::Positive : b < a ? Binary::Negative : Binary::Undefined), "the side that the direction tells"); }
    else if (SUB == 1) { scalar r = b - a; bool fin = (r == r) & (std::fabs(r) <= 1.7976931348623157e308), zero = std::fabs(r) < 1e-6; Ramp t("t", a, b); sx_check(t.direction() == (!fin | zero ? Ramp::Zero : r > 0 ? Ramp::Positive : Ramp::Negative), "up, down or neither"); }
    else { bool fin = (b == b) & (std::fabs(b) <= 1.7976931348623157e308), zero = std::fabs(b) < 1e-6; Sigmoid t("t", a, b); sx_check(t.direction() == (!fin | zero ? Sigmoid::Zero : b > 0 ? Sigmoid::Positive : Sigmoid::Negative), "up, down or neither"); }
}
CASE(slopes, "real", 2, 2, "cost=2 time=60") { // the direction is the one in which membership grows
    scalar a = sx_real("a", -50, 50), b = sx_real("b", -50, 50), x = sx_real("x", -100, 100), y = sx_real("y", -100, 100); sx_assume((x < y) & (std::fabs(b - a) > 0.001)); if (SUB == 0) { Binary t("t", a, b); scalar u = t.membership(x), v = t.membership(y); sx_check((t.direction() == Binary::Positive ? u <= v : v <= u), "it grows in its direction"); } else { Ramp t("t", a, b); scalar u = t.membership(x), v = t.membership(y); sx_check((t.direction() == Ramp::Positive ? u <= v + 1e-9 : v <= u + 1e-9), "it grows in its direction"); }
}
CASE(points, "real", 3, 3, "cost=2 time=60") { // pairs of a discrete term as text; SUB + 1 pairs
    std::vector<Discrete::Pair> xy; S want, flat; static const char* const nm[] = {"x0", "y0", "x1", "y1", "x2", "y2"}; int k = sx_choice("style", 3); static const char* const st[][4] = {{"(", ",", ")", " "}, {"<", " -> ", ">", "; "}, {"", " ", "", " "}}; for (int i = 0; i <= SUB; ++i) { scalar x = sx_real(nm[2 * i], 1, 50), y = sx_real(nm[2 * i + 1], 1, 50); xy.push_back(Discrete::Pair(x, y)); want += (i ? st[k][3] : "") + S(st[k][0]) + Op::str(x) + st[k][1] + Op::str(y) + st[k][2]; } S got = Discrete::formatXY(xy, st[k][0], st[k][1], st[k][2], st[k][3]); sx_check(got == want, "pairs are written with the brackets and separators given"); S def = Discrete::formatXY(xy); if (k == 0) sx_check(def == want, "by default as (x,y)"); sx_check(Discrete::formatXY(std::vector<Discrete::Pair>()).empty(), "none is nothing");
    Linear l; std::vector<scalar> c = Discrete::toVector(xy); std::unique_ptr<Engine> e(sx::build(sx::SUGENO)); l.set(c, e.get()); sx_check(l.coefficients() == c && l.getEngine() == e.get(), "a linear term has what is set"); 
}
CASE(own, "real", 3, 3, "cost=2 time=60") { // operators by formula; SUB: TNorm, SNorm, hedge
    scalar x = sx_real("x", 0, 1), y = sx_real("y", 0, 1); if (SUB == 0) { TNormFunction f("a * b"); std::unique_ptr<TNorm> c(f.clone()); sx_check(f.className() == "TNormFunction" && f.getFormula() == "a * b", "an operator tells its formula"); f.setFormula("min(a, b) * b"); sx_check(f.getFormula() == "min(a, b) * b", "the last one set"); sx_check(near(f.compute(x, y), mn(x, y) * y, 1e-9) & near(c->compute(x, y), x * y, 1e-9) & near(c->compute(y, x), x * y, 1e-9), "and computes it, clones their own"); sx_check(dynamic_cast<TNormFunction*>(c.get())->getFormula() == "a * b", "which they tell"); std::unique_ptr<TNorm> n(TNormFunction::constructor()); sx_check(n->className() == "TNormFunction" && dynamic_cast<TNormFunction*>(n.get())->getFormula().empty(), "a new one has none"); }
    else if (SUB == 1) { SNormFunction f("a + b - a * b"); std::unique_ptr<SNorm> c(f.clone()); sx_check(f.className() == "SNormFunction" && f.getFormula() == "a + b - a * b", "an operator tells its formula"); f.setFormula("max(a, b) + 2 * a"); sx_check(f.getFormula() == "max(a, b) + 2 * a", "the last one set"); sx_check(near(f.compute(x, y), mx(x, y) + 2 * x, 1e-9) & near(c->compute(x, y), x + y - x * y, 1e-9), "and computes it, clones their own"); sx_check(dynamic_cast<SNormFunction*>(c.get())->getFormula() == "a + b - a * b", "which they tell"); std::unique_ptr<SNorm> n(SNormFunction::constructor()); sx_check(n->className() == "SNormFunction" && dynamic_cast<SNormFunction*>(n.get())->getFormula().empty(), "a new one has none"); }
    else { HedgeFunction f("x * x", "squared"); std::unique_ptr<Hedge> c(f.clone()); sx_check(f.name() == "squared" && f.getFormula() == "x * x" && c->name() == "squared", "a hedge tells its name and formula"); f.setFormula("1 - x"); sx_check(f.getFormula() == "1 - x" && f.name() == "squared", "the last one set"); sx_check(near(f.hedge(x), 1 - x, 1e-9) & near(c->hedge(x), x * x, 1e-9), "and computes it, clones their own"); std::unique_ptr<Hedge> n(HedgeFunction::constructor()); sx_check(dynamic_cast<HedgeFunction*>(n.get())->getFormula().empty(), "a new one has none"); }
}
