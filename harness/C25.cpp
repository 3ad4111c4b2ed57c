// Formulas: operator precedence, associativity, functions, spacing, notations.
// BOUNDS: all sequences of 3 of the 8 binary operators over 4 operands with 9 parenthesis layouts, prefix operators in front of any operand or group, all 33 functions alone, nested and in context, functions inside up to five open groups with 4 operators at each place, 3 spacings; operands in [-8,8] (exact reals); what each operator and function computes: every IEEE double, elementary functions uninterpreted
#include "expr.h"
using namespace sx;
static const char* const names[] = {"a", "b", "c", "d"};
// In the structure cases every operator and function keeps its name, arity, precedence and associativity but computes a linear map of its own
// (no two combinations coincide), so the solver decides the structure for all operands; what each one computes is decided in `meaning`.
template <int K> static scalar lin1(scalar a) { return (2 + K) * a + K * K + 1; }
template <int K> static scalar lin2(scalar a, scalar b) { return (3 + 2 * K) * a - (2 + K) * b + 7 * K + 1; }
template <int K> struct Tab { static void fill(F1* o, F2* t) { o[K] = lin1<K>; t[K] = lin2<K>; Tab<K - 1>::fill(o, t); } };
template <> struct Tab<-1> { static void fill(F1*, F2*) {} };
static const int ALL = 8 + 2 + 33;
static void abstract_(Ref& r) {
    F1 o[ALL]; F2 t[ALL]; Tab<ALL - 1>::fill(o, t); FunctionFactory* f = FactoryManager::instance()->function();
    for (int i = 0; i < OPS; ++i) { f->getObject(ops[i].name)->binary = t[i]; r.two[ops[i].name] = t[i]; }
    f->getObject("!")->unary = o[8]; f->getObject("~")->unary = o[9]; r.one["!"] = o[8]; r.one["~"] = o[9];
    for (int i = 0; i < FNS; ++i) { Function::Element* e = f->getObject(fns[i].name); if (fns[i].two) { e->binary = t[10 + i]; r.two[fns[i].name] = t[10 + i]; } else { e->unary = o[10 + i]; r.one[fns[i].name] = o[10 + i]; } }
}
static void run(Ref& r, int style, bool notation) {
    abstract_(r); std::map<S, scalar> v; for (int i = 0; i < 4; ++i) v[names[i]] = r.v[names[i]] = sx_real(names[i], -8, 8);
    S text = join(r.t, style);
    Function f("f", text); for (int i = 0; i < 4; ++i) f.variables[names[i]] = 0.5;
    f.load(); scalar got = f.evaluate(v), want = r.eval();
    sx_check(near(got, want, 1e-6), "value by precedence, associativity and parentheses");
    sx_check(near(f.evaluate(), got, 1e-9), "evaluating again gives the same");
    sx_check(f.isLoaded() && f.getFormula() == text && f.parameters() == text, "the formula is kept");
    if (!notation) return;
    sx_check(f.root()->toPostfix() == r.post, "postfix notation"); sx_check(f.root()->toPrefix() == r.pre, "prefix notation"); sx_check((int)f.root()->treeSize() == r.nodes, "number of operations");
    FL_unique_ptr<Function::Node> n(f.root()->clone());
    Function old; static const char* const former[] = {"(1 + 2) * (3 - 4)", "~ 7", "pow(sin(2), 3)", "9", "b"};
    for (int i = 0; i < 5; ++i) { FL_unique_ptr<Function::Node> m(old.parse(former[i])); *m = *f.root(); *m = *m; sx_check(near(m->evaluate(&v), want, 1e-6) && m->toPostfix() == r.post && (int)m->treeSize() == r.nodes, "a tree assigned over another is the same tree"); }
    f.unload();
    sx_check(near(n->evaluate(&v), want, 1e-6), "a copied tree evaluates the same");
    sx_check(!f.isLoaded(), "unloading forgets the tree");
}
static const char* const layout[] = {"a b c d", "( a b ) c d", "a ( b c ) d", "a b ( c d )", "( a b c ) d", "a ( b c d )", "( a b ) ( c d )", "a ( b ( c d ) )", "( ( a b ) c ) d"};
CASE(binary, "real", 8, 8, "cost=8 time=200 max_paths=20000") {
    Ref r; int o[3] = {SUB, sx_choice("o1", OPS), sx_choice("o2", OPS)}; int l = sx_choice("layout", 9);
    std::vector<S> t = split(layout[l]); int k = 0;
    for (size_t i = 0; i < t.size(); ++i) { if (i && t[i] != ")" && t[i - 1] != "(") r.t.push_back(ops[o[k++]].name); r.t.push_back(t[i]); }
    run(r, l % 3, true);
}
CASE(prefix, "real", 3, 3, "cost=5 time=200 max_paths=20000") { // prefix operators bind tighter than everything else
    static const char* const u[] = {"", "! ", "~ ", "~ ~ ", "! ~ "}; static const int some[] = {0, 1, 4, 6, 7};
    Ref r; int o1 = some[sx_choice("o1", 5)], o2 = some[sx_choice("o2", 5)], p = sx_choice("p", 5), q = sx_choice("q", 5);
    S a = ops[o1].name, b = ops[o2].name, s;
    if (SUB == 0) s = S(u[p]) + "a " + a + " " + u[q] + "b " + b + " c";
    else if (SUB == 1) s = "a " + a + " " + u[p] + "( b " + b + " " + u[q] + "c )";
    else s = S(u[p]) + "( a " + a + " b ) " + b + " " + u[q] + "c";
    r.t = split(s); run(r, (o1 + o2) % 3, true);
}
CASE(functions, "real", 5, 5, "cost=4 time=200 max_paths=20000") { // every function, with expressions as arguments
    Ref r; int f = sx_choice("f", FNS), g = SUB == 1 ? sx_choice("g", FNS) : (f * 7 + 3) % FNS; S s;
    S inner = fns[g].two ? S(fns[g].name) + " ( b , c )" : S(fns[g].name) + " ( b )";
    if (SUB == 0) s = fns[f].two ? S(fns[f].name) + " ( a , b )" : S(fns[f].name) + " ( a )";
    else if (SUB == 1) s = S(fns[f].name) + (fns[f].two ? " ( a + d , " + inner + " )" : " ( a * " + inner + " )");
    else if (SUB == 2) s = S("a ^ ") + fns[f].name + (fns[f].two ? " ( b - c , d )" : " ( b - c )") + " - " + inner + " * c";
    else if (SUB == 3) s = S("~ ") + fns[f].name + (fns[f].two ? " ( ( a ) , ( b ) )" : " ( ( a ) )") + " ^ c";
    else s = S(fns[f].name) + (fns[f].two ? " ( a or b , ! c )" : " ( a and b )") + " / " + inner;
    r.t = split(s); run(r, (f + SUB) % 3, true);
}
CASE(deep, "real", 4, 4, "cost=4 time=100 max_paths=8000") { // functions and groups inside many open groups; SUB: what is innermost
    static const int some[] = {0, 1, 4, 6}; Ref r; S o[4]; static const char* const nm[] = {"o0", "o1", "o2", "o3"}; for (int i = 0; i < 4; ++i) o[i] = ops[some[sx_choice(nm[i], 4)]].name;
    static const char* const in[] = {"sin ( b )", "max ( b , c )", "~ ( b )", "sqrt ( cos ( b ) )"}; S q = in[SUB], s;
    int shape = sx_choice("shape", 4);
    if (shape == 0) s = "a " + o[0] + " ( b " + o[1] + " ( c " + o[2] + " ( " + q + " " + o[3] + " d ) ) )";
    else if (shape == 1) s = "exp ( a " + o[0] + " ( b " + o[1] + " min ( c " + o[2] + " " + q + " " + o[3] + " d , a ) ) )";
    else if (shape == 2) s = "( ( ( a " + o[0] + " " + q + " ) " + o[1] + " " + q + " ) " + o[2] + " c ) " + o[3] + " d";
    else s = "pow ( ( a " + o[0] + " b ) , ( ( " + q + " " + o[1] + " c ) ) " + o[2] + " d ) " + o[3] + " " + q;
    r.t = split(s); run(r, shape % 3, true);
}
CASE(meaning, "fp", 3, 3, "cost=4 time=120") { // what every operator and function computes, for every double
    scalar a = sx_fp("a"), b = sx_fp("b"), want = 0; std::map<S, scalar> v; v["a"] = a; v["b"] = b; Function f("f"); f.variables["a"] = f.variables["b"] = 0.5; S s;
    if (SUB == 0) { int i = sx_choice("i", OPS); s = S("a ") + ops[i].name + " b"; want = ops[i].f(a, b); }
    else if (SUB == 1) { int i = sx_choice("i", FNS); s = S(fns[i].name) + (fns[i].two ? "(a, b)" : "(a)"); want = fns[i].two ? fns[i].two(a, b) : fns[i].one(a); }
    else { int i = sx_choice("i", 2); s = i ? "!a" : "~a"; want = i ? f_not(a) : f_neg(a); }
    f.load(s); sx_check(same(f.evaluate(v), want), "meaning of operators and functions");
}
CASE(exact, "real", 1, 1, "cost=4 time=120") { // the registered operators together
    static const char* const t[] = {"a + b * c - d", "( a - b ) * ( c + d )", "a - ( b - c ) - d", "~ a * b + max ( c , ~ d )", "a * b * c + min ( a , d ) - ~ ~ b", "gt ( a , b + 1 ) + 2 * le ( c - d , 0 )"};
    Ref r; r.t = split(t[sx_choice("i", 6)]); r.v["1"] = 1; r.v["2"] = 2; std::map<S, scalar> v; for (int i = 0; i < 4; ++i) v[names[i]] = r.v[names[i]] = sx_real(names[i], -8, 8);
    Function f("f", join(r.t, sx_choice("style", 3))); for (int i = 0; i < 4; ++i) f.variables[names[i]] = 0.5;
    crisp(r.v["a"] - r.v["b"] - 1, 0); crisp(r.v["c"] - r.v["d"], 0);
    f.load(); sx_check(near(f.evaluate(v), r.eval(), 1e-6), "value by precedence, associativity and parentheses");
}
CASE(table, "real", 1, 1, "cost=1 time=30") { // the available operators and functions
    FunctionFactory* f = FactoryManager::instance()->function(); std::vector<S> o = f->availableOperators(), n = f->availableFunctions(); bool ok = o.size() == OPS + 2 && (int)n.size() == FNS;
    for (int i = 0; i < OPS; ++i) ok = ok && std::find(o.begin(), o.end(), ops[i].name) != o.end(); for (int i = 0; i < FNS; ++i) ok = ok && std::find(n.begin(), n.end(), fns[i].name) != n.end();
    sx_check(ok, "the documented operators and functions are available");
}
CASE(numbers, "real", 1, 1, "cost=1 time=60") { // literals
    static const char* const lit[] = {"0", "1", "2.5", ".5", "5.", "1e3", "2E2", "0.001", "007", "123456.75", "inf"}; static const scalar val[] = {0, 1, 2.5, 0.5, 5, 1000, 200, 0.001, 7, 123456.75, INFINITY};
    int i = sx_choice("i", 11); scalar a = sx_real("a", -4, 4); std::map<S, scalar> v; v["a"] = a;
    static const char* const form[] = {"@", "a*@", "@ + a", "~@", "max(a,@)"}; int k = sx_choice("k", 5); S s = form[k]; s.replace(s.find('@'), 1, lit[i]);
    if (i == 10 && k == 1) return; // infinite times a real: outside exact reals
    Function f("f", s); f.variables["a"] = 0; f.load(); scalar w = val[i]; scalar g = f.evaluate(v);
    sx_check(same(g, k == 0 ? w : k == 1 ? a * w : k == 2 ? w + a : k == 3 ? -w : f_max(a, w)), "numbers in a formula");
    Function n("n", "nan"); n.load(); sx_check(n.evaluate() != n.evaluate(), "nan is a number");
}
