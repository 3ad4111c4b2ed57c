// Function terms and formulas: variables, refusal of ill-formed formulas.
// BOUNDS: formulas of up to 5 tokens from a vocabulary of 10 (operands, operators, function names, parentheses, comma) exhaustively; any 1-2 (thorough 3) bytes inserted at 4 places of a formula; symbolic values of variables in [-8,8]; engines with 2 inputs and 1 output
#include "expr.h"
using namespace sx;
// every token sequence: refused when parentheses do not match, or operands are missing or left over; a well-formed one is accepted
static const char* const voc[] = {"a", "2", "+", "^", "~", "(", ")", "sin", "max", ","};
static const int ar[] = {0, 0, 2, 2, 1, 0, 0, 1, 2, 0};
struct Gram { // recursive recogniser of well-formed formulas
    const std::vector<int>& t; size_t i; bool ok;
    Gram(const std::vector<int>& t) : t(t), i(0), ok(true) {}
    int tok() { return i < t.size() ? t[i] : -1; }
    void prim() { int k = tok(); ++i; if (!ok) return; if (k == 0 || k == 1) return; if (k == 4) return prim(); if (k == 5) { expr(); if (tok() != 6) ok = false; ++i; return; } if (k == 7 || k == 8) { if (tok() != 5) ok = false; ++i; expr(); if (k == 8) { if (tok() != 9) ok = false; ++i; expr(); } if (tok() != 6) ok = false; ++i; return; } ok = false; }
    void expr() { prim(); while (ok && (tok() == 2 || tok() == 3)) { ++i; prim(); } }
    bool all() { expr(); return ok && i == t.size(); }
};
CASE(tokens, "real", 10, 10, "cost=9 time=200 max_paths=60000") {
    std::vector<int> t; t.push_back(SUB); int len = sx_choice("len", THOROUGH ? 5 : 4) + 1; S s = voc[SUB];
    static const char* const nm[] = {"t1", "t2", "t3", "t4"};
    for (int i = 1; i < len; ++i) { int k = sx_choice(nm[i - 1], 10); t.push_back(k); s += S(" ") + voc[k]; }
    int depth = 0, need = 0; bool paren = true; for (size_t i = 0; i < t.size(); ++i) { if (t[i] == 5) ++depth; if (t[i] == 6) { --depth; if (depth < 0) paren = false; } if (t[i] < 2) ++need; if (ar[t[i]] == 2) --need; }
    bool bad = !paren || depth || need != 1, good = Gram(t).all();
    Function f("f", s); f.variables["a"] = 1; bool ok = true; try { f.load(); } catch (fl::Exception&) { ok = false; }
    sx_check(!(ok && bad), "unmatched parentheses, missing or left-over operands are refused");
    sx_check(ok || !good, "a well-formed formula is accepted");
    if (ok) sx_check(f.isLoaded(), "an accepted formula can be evaluated");
    if (ok) { scalar x = 1.5; std::map<S, scalar> v; v["a"] = x; scalar y = f.evaluate(v), z = f.evaluate(v); sx_check(same(y, z), "an accepted formula can be evaluated"); }
}
static bool nameByte(char c) { return (c > ' ') & (c != '(') & (c != ')') & (c != ',') & (c != '!') & (c != '~') & (c != '^') & (c != '*') & (c != '/') & (c != '%') & (c != '+') & (c != '-') & ((unsigned char)c < 127); }
CASE(unknown, "real", 2, 3, "cost=6 time=200 max_paths=60000") { // any name that is not a variable, a number or a function is refused, whatever its characters
    char w[4]; int n = SUB + 1; for (int i = 0; i < n; ++i) { static const char* const b[] = {"b0", "b1", "b2"}; w[i] = (char)sx_byte(b[i]); sx_assume(nameByte(w[i])); } w[n] = 0;
    bool number = true; for (int i = 0; i < n; ++i) number = number & (((w[i] >= '0') & (w[i] <= '9')) | (w[i] == '.') | (w[i] == 'e') | (w[i] == 'E') | (w[i] == 'x') | (w[i] == 'X') | (w[i] == 'p') | (w[i] == 'P')); sx_assume(!number);
    S s(w, n); bool var = s == "a" || s == "bc" || s == "x", word = s == "gt" || s == "ge" || s == "lt" || s == "le" || s == "eq" || s == "or" || s == "and" || s == "abs" || s == "exp" || s == "log" || s == "sin" || s == "cos" || s == "tan" || s == "max" || s == "min" || s == "neq" || s == "pow" || s == "nan" || s == "inf";
    Function f("f", "a * " + s + " + 1"); scalar a = sx_real("a", -8, 8), b = sx_real("b", -8, 8); f.variables["a"] = a; f.variables["bc"] = b; bool ok = true; try { f.load(); } catch (fl::Exception&) { ok = false; }
    if (word) return;
    sx_check(ok == var, "exactly known variables are accepted"); if (ok && var) { scalar k = s == "a" ? a : s == "bc" ? b : 3; sx_check(near(f.membership(3), a * k + 1, 1e-6), "a variable stands for its value"); }
}
CASE(bytes, "real", 8, 16, "cost=7 time=200 max_paths=60000") { // any bytes inside a formula: refused or evaluated, never anything else
    static const char* const t[][2] = {{"a ", " + 1"}, {"", " a * 2"}, {"max(a", ", 2)"}, {"2 ^ a", ""}}; int n = SUB / 4 + 1, k = SUB % 4; if (n > (THOROUGH ? 3 : 2)) return;
    S w; for (int i = 0; i < n; ++i) { static const char* const b[] = {"b0", "b1", "b2"}; w += (char)sx_byte(b[i]); }
    Function f("f", t[k][0] + w + t[k][1]); f.variables["a"] = 2; bool ok = true; try { f.load(); } catch (fl::Exception&) { ok = false; }
    if (ok) { scalar y = f.membership(1); sx_check(f.isLoaded(), "an accepted formula can be evaluated"); sx_note("y", y); }
    bool plain = true; for (int i = 0; i < n; ++i) plain = plain & ((w[i] == ' ') | (w[i] == '\t')); if (plain) sx_check(ok, "white space does not matter");
}
static void threw_(const Function& q, scalar x) { bool threw = false; try { q.membership(x); } catch (fl::Exception&) { threw = true; } sx_check(threw && !q.isLoaded(), "a function that is not loaded cannot be evaluated"); }
CASE(term, "real", 3, 3, "cost=4 time=100") { // a function term sees the engine's current values and x
    Engine e("e"); InputVariable *a = new InputVariable("a", -1, 1), *b = new InputVariable("b", -1, 1); OutputVariable* o = new OutputVariable("o", -1, 1); e.addInputVariable(a); e.addInputVariable(b); e.addOutputVariable(o);
    scalar va = sx_real("a", -8, 8), vb = sx_real("b", -8, 8), vo = sx_real("o", -8, 8), x = sx_real("x", -8, 8);
    a->setValue(1); b->setValue(2); o->setValue(3);
    FL_unique_ptr<Function> f(SUB == 0 ? Function::create("f", "2 * a - b + 4 * o + 8 * x", &e) : new Function("f", "2 * a - b + 4 * o + 8 * x", &e));
    if (SUB == 1) { sx_check(!f->isLoaded(), "a new function is not loaded"); bool threw = false; try { f->membership(x); } catch (fl::Exception&) { threw = true; } sx_check(threw, "a function that is not loaded cannot be evaluated"); f->load(); }
    if (SUB == 2) { f.reset(new Function("f")); f->setFormula("2 * a - b + 4 * o + 8 * x"); f->updateReference(&e); sx_check(f->isLoaded() && f->getEngine() == &e, "updating the reference loads the function"); }
    f->membership(0.5); a->setValue(va); b->setValue(vb); o->setValue(vo);
    int off = sx_choice("off", 3); if (off) { a->setEnabled(off == 2); b->setEnabled(false); o->setEnabled(off == 2); } // whether variables are enabled does not matter
    scalar want = 2 * va - vb + 4 * vo + 8 * x; sx_check(near(f->membership(x), want, 1e-9), "formula at x with the engine's current values");
    FL_unique_ptr<Term> c(f->clone()); Function g("g"); g = *f; scalar y = sx_real("y", -8, 8); b->setValue(y);
    scalar w2 = 2 * va - y + 4 * vo + 8 * x; sx_check(near(c->membership(x), w2, 1e-9) && near(g.membership(x), w2, 1e-9) && near(f->membership(x), w2, 1e-9), "copies evaluate the same");
    Function u("u", "3"), q("q", "x * 7"); q.variables["old"] = 1; q.load(); q = u; threw_(q, x); sx_check(q.getName() == "u" && q.getFormula() == "3" && q.getEngine() == fl::null && q.variables.empty(), "a function assigned from one that is not loaded is not loaded either");
    f->load("a + x"); sx_check(near(f->membership(x), va + x, 1e-9) && near(c->membership(x), w2, 1e-9), "loading another formula replaces it, copies keep theirs");
    f->configure("a - x"); sx_check(near(f->membership(x), va - x, 1e-9) && f->parameters() == "a - x", "configuring loads the formula");
    f->unload(); bool threw = false; try { f->membership(x); } catch (fl::Exception&) { threw = true; } sx_check(threw && !f->isLoaded(), "an unloaded function cannot be evaluated");
}
CASE(variables, "real", 1, 1, "cost=2 time=60") { // values given for one evaluation replace the stored ones
    scalar a = sx_real("a", -8, 8), b = sx_real("b", -8, 8), c = sx_real("c", -8, 8); Function f("f", "a - 2 * b"); f.variables["a"] = a; f.variables["b"] = b; f.load();
    Function k("k", "b + 1"); k.variables["b"] = c; k.variables["z"] = c; k.load(); std::unique_ptr<Function> cl(f.clone()); Function cc(f); k = f; sx_check(near(k.evaluate(), a - 2 * b, 1e-9) && near(cl->evaluate(), a - 2 * b, 1e-9) && near(cc.evaluate(), a - 2 * b, 1e-9) && k.variables.count("z") == 0 && cl->variables.count("z") == 0, "copies have the formula and the stored values of the original, and nothing else");
    f.variables["a"] = c; sx_check(near(k.evaluate(), a - 2 * b, 1e-9) && near(cl->evaluate(), a - 2 * b, 1e-9) && near(cc.evaluate(), a - 2 * b, 1e-9) && near(f.evaluate(), c - 2 * b, 1e-9), "and keep their own values"); f.variables["a"] = a;
    sx_check(near(f.evaluate(), a - 2 * b, 1e-9), "stored values"); std::map<S, scalar> v; v["b"] = c; sx_check(near(f.evaluate(&v), a - 2 * c, 1e-9), "given values replace stored ones"); 
    Function g("g", "a + nope"); g.variables["a"] = a; bool threw = false; try { g.load(); } catch (fl::Exception&) { threw = true; } sx_check(threw, "an unknown variable is refused");
    static const char* const empty[] = {"", " ", "\t\n", "()", "( )", ","}; for (int i = 0; i < 6; ++i) { Function h("h", empty[i]); threw = false; try { h.load(); } catch (fl::Exception&) { threw = true; } sx_check(threw, "an empty formula is refused"); }
}
CASE(doubles, "fp", 3, 3, "cost=2 time=60") { // every double as a value, NaN and infinities included; SUB: where the values come from
    scalar a = sx_is_real_mode() ? sx_real("a", -8, 8) : sx_fp("a"), x = sx_is_real_mode() ? sx_real("x", -8, 8) : sx_fp("x"); int k = sx_choice("formula", 4); static const char* const t[] = {"a", "x", "max(a, x)", "a lt x"};
    scalar want = k == 0 ? a : k == 1 ? x : k == 2 ? f_max(a, x) : f_lt(a, x);
    Engine e("e"); InputVariable* v = new InputVariable("a"); e.addInputVariable(v); v->setValue(SUB == 1 ? a : 0.5); OutputVariable* o = new OutputVariable("b"); e.addOutputVariable(o);
    std::unique_ptr<Function> f; scalar got = 7; bool ok = true;
    try {
        if (SUB == 0) { f.reset(new Function("f", t[k])); f->variables["a"] = 1; f->variables["x"] = 1; f->load(); f->variables["a"] = a; f->variables["x"] = x; got = f->evaluate(); scalar m = f->membership(x); ok = ok & same(m, want); }
        else if (SUB == 1) { f.reset(Function::create("f", t[k], &e)); got = f->membership(x); }
        else { f.reset(new Function("f", t[k])); f->variables["a"] = 1; f->variables["x"] = 1; f->load(); std::map<S, scalar> m; m["a"] = a; m["x"] = x; got = f->evaluate(&m); }
    } catch (fl::Exception&) { ok = false; }
    sx_check(ok & same(got, want), "a formula takes any double as the value of a variable");
}
