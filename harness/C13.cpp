// Rule language: well-formed rules load with the written structure, malformed ones are refused and leave the rule unloaded.
// BOUNDS: 6 rule templates of up to 22 tokens; every single-token deletion, duplication, adjacent swap and replacement by each of 20 vocabulary tokens (keywords, names, hedges, parentheses, numbers, junk), 3 spacing styles; every prefix of each template; blocks of 3 rules with any one of 6 defects anywhere
// BOUNDS: any one word of a template replaced by any word of 1 or 2 (thorough 3) printable characters (symbolic bytes; no space, comma, parenthesis, #)
// BOUNDS: the choices are symbolic and forked exhaustively by the solver
#include "common.h"
#include <sstream>
using namespace fl;
typedef std::vector<S> Toks;
static Engine* makeEngine() {
    Engine* e = new Engine;
    for (int i = 0; i < 2; ++i) { InputVariable* v = new InputVariable(i ? "b" : "a", 0, 1); v->addTerm(new Constant("t", 1)); v->addTerm(new Constant("u", 0.5)); e->addInputVariable(v); }
    for (int i = 0; i < 2; ++i) { OutputVariable* v = new OutputVariable(i ? "p" : "o", 0, 1); v->addTerm(new Constant("big", 1)); v->addTerm(new Constant("tiny", 0.5)); e->addOutputVariable(v); }
    return e;
}
static const char* const templates[] = {
    "if a is t then o is big",
    "if a is not t and b is any then o is big with 0.5",
    "if ( a is t or b is very u ) and o is tiny then o is very big and p is tiny",
    "if a is t or b is u and a is u then o is not very big and p is tiny with 0.25",
    "if ( ( a is t ) ) then p is somewhat tiny",
    "if a is t and ( b is u or ( p is big and b is t ) ) then o is big"};
static const char* const vocab[] = {"if", "then", "with", "is", "and", "or", "not", "any", "a", "b", "o", "p", "t", "u", "big", "(", ")", "0.5", "zzz", "A"};
static Toks split(const S& s) { std::istringstream is(s); Toks r; S t; while (is >> t) r.push_back(t); return r; }
// independent recogniser
struct Rec {
    Toks t; size_t i; bool lax; // lax: parentheses where the recogniser has no opinion
    S at() const { return i < t.size() ? t[i] : S(); }
    bool eat(const char* k) { if (at() == k) { ++i; return true; } return false; }
    static bool in(const S& v) { return v == "a" || v == "b"; }
    static bool out(const S& v) { return v == "o" || v == "p"; }
    static bool hedge(const S& v) { return v == "not" || v == "very" || v == "somewhat" || v == "any"; }
    static bool term(const S& var, const S& t) { return in(var) ? (t == "t" || t == "u") : (t == "big" || t == "tiny"); }
    bool prop() {
        S var = at(); if (!in(var) && !out(var)) return false; ++i;
        if (!eat("is")) return false;
        while (hedge(at())) { bool any = at() == "any"; ++i; if (any) return true; }
        if (!term(var, at())) return false; ++i; return true;
    }
    bool prim() { if (eat("(")) return expr() && eat(")"); return prop(); }
    bool expr() { if (!prim()) return false; while (eat("and") || eat("or")) if (!prim()) return false; return true; }
    static bool number(const S& n) { // [+-] (digits [. digits*] | . digits+) [e [+-] digits+] or nan, inf
        size_t k = 0, d = 0;
        if (k < n.size() && (n[k] == '+' || n[k] == '-')) ++k;
        if (n.substr(k) == "nan" || n.substr(k) == "inf") return true;
        while (k < n.size() && n[k] >= '0' && n[k] <= '9') { ++k; ++d; }
        if (k < n.size() && n[k] == '.') { ++k; while (k < n.size() && n[k] >= '0' && n[k] <= '9') { ++k; ++d; } }
        if (!d) return false;
        if (k < n.size() && (n[k] == 'e' || n[k] == 'E')) {
            ++k; d = 0;
            if (k < n.size() && (n[k] == '+' || n[k] == '-')) ++k;
            while (k < n.size() && n[k] >= '0' && n[k] <= '9') { ++k; ++d; }
            if (!d) return false;
        }
        return k == n.size();
    }
    bool accept(S& cons, scalar& weight) {
        i = 0; weight = 1.0; cons = "";
        if (!eat("if")) return false;
        size_t j = i; while (j < t.size() && t[j] != "then") ++j;
        if (j == t.size()) return false;
        Rec ant; ant.t.assign(t.begin() + i, t.begin() + j); ant.i = 0;
        if (ant.t.empty() || !ant.expr() || ant.i != ant.t.size()) return false;
        i = j + 1;
        do {
            S var = at(); if (!out(var)) return false; ++i;
            cons += var;
            if (!eat("is")) return false;
            while (hedge(at())) { cons += " " + at(); ++i; }
            if (!term(var, at())) return false;
            cons += " " + at() + ";"; ++i;
        } while (eat("and"));
        if (eat("with")) { if (at() == "0.5") weight = 0.5; else if (at() == "0.25") weight = 0.25; else if (number(at())) weight = fl::nan; else return false; ++i; }
        return i == t.size();
    }
    // the propositions are complete and in order, but a connective or parenthesis sits inside or next to them wrongly
    bool misplaced() const {
        Rec f; size_t conn = 0, par = 0, k = 1, props = 0;
        if (t.empty() || t[0] != "if") return false;
        for (; k < t.size() && t[k] != "then"; ++k) {
            if (t[k] == "and" || t[k] == "or") ++conn;
            else if (t[k] == "(") ++par;
            else if (t[k] == ")") { if (!par--) return false; }
            else f.t.push_back(t[k]);
        }
        if (k == t.size() || par) return false;
        f.i = 0;
        while (f.i < f.t.size()) { if (!f.prop()) return false; ++props; }
        if (!props || conn + 1 != props) return false;
        Rec g; g.t = t; g.t.erase(g.t.begin() + 1, g.t.begin() + k);
        const char* ok[] = {"a", "is", "t"}; g.t.insert(g.t.begin() + 1, ok, ok + 3);
        S c; scalar w; return g.accept(c, w); // the rest of the rule is fine
    }
};
static S describe(const Rule* r) {
    S d;
    const std::vector<Proposition*>& c = r->getConsequent()->conclusions();
    for (size_t k = 0; k < c.size(); ++k) {
        d += c[k]->variable->getName();
        for (size_t h = 0; h < c[k]->hedges.size(); ++h) d += " " + c[k]->hedges[h]->name();
        d += " " + c[k]->term->getName() + ";";
    }
    return d;
}
static S joinToks(const Toks& t, int style) {
    S r = style == 1 ? "  " : "";
    for (size_t k = 0; k < t.size(); ++k) {
        r += t[k];
        if (k + 1 == t.size()) break;
        bool paren = t[k] == "(" || t[k + 1] == ")" || (t[k] == ")" && t[k + 1] != "then") || (t[k + 1] == "(" && t[k] != "if");
        r += style == 1 ? (k % 2 ? "\t" : "   ") : style == 2 && paren ? "" : " ";
    }
    return r + (style == 1 ? " # if comment then ignored" : style == 3 ? "#then ignored with 2" : "");
}
static void judge(const Toks& t, int style) {
    Rec rec; rec.t = t;
    S cons; scalar w;
    bool good = rec.accept(cons, w);
    std::unique_ptr<Engine> e(makeEngine());
    Rule r; bool ok = true;
    S text = joinToks(t, style);
    try { r.load(text, e.get()); } catch (Exception&) { ok = false; }
    if (!good && rec.misplaced()) sx_check(!ok, "a connective or parenthesis inside a proposition is refused");
    else sx_check(ok == good, "accepted exactly when well formed");
    sx_check(r.isLoaded() == ok, "a refused rule stays unloaded, an accepted one is loaded");
    sx_check(r.getText() == text, "the text is kept");
    if (ok && good) sx_check(describe(&r) == cons && (w != w || r.getWeight() == w), "conclusions, hedges and weight are as written");
    if (ok && good) { S shape = r.getAntecedent()->toInfix(); r.load(e.get()); sx_check(r.isLoaded() && describe(&r) == cons && (w != w || r.getWeight() == w) && r.getAntecedent()->toInfix() == shape, "loading again gives the same"); }
    else if (!ok && style == 0) { // a rule that was fine before is unloaded by a text that is refused, and can be loaded again
        Rule q; q.load(templates[1], e.get()); bool refused = false;
        try { q.load(text, e.get()); } catch (Exception&) { refused = true; }
        sx_check(refused && !q.isLoaded(), "a refused text leaves a rule unloaded that was loaded before");
        q.load(templates[0], e.get()); sx_check(q.isLoaded() && describe(&q) == "o big;" && q.getWeight() == 1.0, "a refused text does not spoil the next one");
    }
}
CASE(edited, "real", 6, 6, "cost=9 time=120 max_paths=20000") {
    Toks t = split(templates[SUB]);
    int n = (int)t.size(), kind = sx_choice("edit", 5), style = 0;
    if (kind == 0) { style = sx_choice("style", 4); }
    else if (kind == 1) t.erase(t.begin() + sx_choice("at", n));
    else if (kind == 2) { int k = sx_choice("at", n); t.insert(t.begin() + k, t[k]); }
    else if (kind == 3) { int k = sx_choice("at", n - 1); std::swap(t[k], t[k + 1]); }
    else { int k = sx_choice("at", n); t[k] = vocab[sx_choice("by", 20)]; }
    judge(t, style);
}
CASE(prefixes, "real", 6, 6, "") {
    Toks t = split(templates[SUB]);
    t.resize(sx_choice("length", (int)t.size() + 1));
    judge(t, sx_choice("style", 2));
}
CASE(inserted, "real", 2, 6, "cost=5 time=120 max_paths=20000") {
    Toks t = split(templates[THOROUGH ? SUB : SUB ? 4 : 1]);
    int k = sx_choice("at", (int)t.size() + 1);
    t.insert(t.begin() + k, vocab[sx_choice("by", 20)]);
    judge(t, 0);
}
CASE(block, "real", 6, 6, "") { // a block loads every good rule and reports the bad one
    static const char* const bad[] = {"", "if a is t", "a is t then o is big", "if a is zzz then o is big", "if a is t then a is t", "if a is t then o is big with"};
    std::unique_ptr<Engine> e(makeEngine());
    RuleBlock* rb = new RuleBlock; e->addRuleBlock(rb);
    int pos = sx_choice("bad_at", 4);
    for (int i = 0; i < 3; ++i) rb->addRule(new Rule(i == pos ? bad[SUB] : i == 1 ? templates[1] : templates[0]));
    bool thrown = false;
    try { rb->loadRules(e.get()); } catch (Exception&) { thrown = true; }
    sx_check(thrown == (pos < 3), "loading a block fails exactly when a rule is bad");
    for (int i = 0; i < 3; ++i) sx_check(rb->getRule(i)->isLoaded() == (i != pos), "the good rules are loaded, the bad one is not");
    rb->unloadRules();
    for (int i = 0; i < 3; ++i) sx_check(!rb->getRule(i)->isLoaded(), "unloading unloads every rule");
    thrown = false;
    try { rb->reloadRules(e.get()); } catch (Exception&) { thrown = true; }
    sx_check(thrown == (pos < 3) && rb->getRule((pos + 1) % 3)->isLoaded(), "reloading gives the same");
}
// a block that was loaded for one engine can be loaded for another: its rules are then about the variables of that one
CASE(moved, "real", 2, 2, "cost=2 time=30") {
    std::unique_ptr<Engine> e(makeEngine()), f(makeEngine()); RuleBlock rb; int n = 1 + sx_choice("rules", 3), broken = sx_choice("gone", 2), first = sx_choice("first", 3);
    for (int i = 0; i < n; ++i) rb.addRule(new Rule(templates[i % 2])); if (first) rb.loadRules(e.get()); if (first == 2) rb.unloadRules();
    if (broken) { OutputVariable* o = f->getOutputVariable("o"); o->setName("other"); } bool thrown = false; try { if (SUB) rb.reloadRules(f.get()); else rb.loadRules(f.get()); } catch (Exception&) { thrown = true; }
    sx_check(thrown == (broken != 0), "rules about variables that the engine does not have are refused");
    for (int i = 0; i < n; ++i) { Rule* r = rb.getRule(i); sx_check(r->isLoaded() == !broken, "rules are loaded for the engine that is given"); if (r->isLoaded()) { bool own = true; const std::vector<Proposition*>& c = r->getConsequent()->conclusions(); for (size_t k = 0; k < c.size(); ++k) own = own & (c[k]->variable == f->getOutputVariable(c[k]->variable->getName())) & (c[k]->variable->hasTerm(c[k]->term->getName()) && c[k]->variable->getTerm(c[k]->term->getName()) == c[k]->term); sx_check(own, "and conclude on its variables"); } }
}
// one word of the rule is any string: symbolic bytes
CASE(any_word, "real", 24, 46, "cost=8 time=120 max_paths=20000") {
    Toks t = split(templates[SUB < 24 ? 1 : 3]);
    int k = SUB < 24 ? SUB % 12 + (SUB / 12 ? 3 : 0) : SUB - 24, len = SUB < 12 ? 1 : SUB < 24 ? 2 : 3;
    S w; char nm[8];
    for (int i = 0; i < len; ++i) { std::snprintf(nm, sizeof nm, "c%d", i); int b = sx_byte(nm); sx_assume((b > 32) & (b < 127) & (b != '#') & (b != '(') & (b != ')') & (b != ',')); w += (char)b; }
    t[k] = w;
    judge(t, 0);
}
