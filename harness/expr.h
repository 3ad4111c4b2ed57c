#ifndef SX_EXPR_H
#define SX_EXPR_H
#include "common.h"
#include <map>
// An independent evaluator of formulas: documented operators and functions, precedence climbing over a token list.
namespace sx {
using namespace fl;
typedef scalar (*F1)(scalar);
typedef scalar (*F2)(scalar, scalar);
static inline bool eqv(scalar a, scalar b) { return (a == b) | (std::fabs(a - b) < 1e-6) | ((a != a) & (b != b)); }
static scalar f_not(scalar a) { return eqv(a, 1) ? 0 : 1; }
static scalar f_neg(scalar a) { return -a; }
static scalar f_mul(scalar a, scalar b) { return a * b; }
static scalar f_div(scalar a, scalar b) { return a / b; }
static scalar f_add(scalar a, scalar b) { return a + b; }
static scalar f_sub(scalar a, scalar b) { return a - b; }
static scalar f_and(scalar a, scalar b) { return eqv(a, 1) & eqv(b, 1) ? 1 : 0; }
static scalar f_or(scalar a, scalar b) { return eqv(a, 1) | eqv(b, 1) ? 1 : 0; }
static scalar f_pow(scalar a, scalar b) { return std::pow(a, b); }
static scalar f_mod(scalar a, scalar b) { return std::fmod(a, b); }
static scalar f_atan2(scalar a, scalar b) { return std::atan2(a, b); }
static scalar f_eq(scalar a, scalar b) { return eqv(a, b) ? 1 : 0; }
static scalar f_neq(scalar a, scalar b) { return eqv(a, b) ? 0 : 1; }
static scalar f_gt(scalar a, scalar b) { return (!eqv(a, b)) & (a > b) ? 1 : 0; }
static scalar f_lt(scalar a, scalar b) { return (!eqv(a, b)) & (a < b) ? 1 : 0; }
static scalar f_ge(scalar a, scalar b) { return eqv(a, b) | (a > b) ? 1 : 0; }
static scalar f_le(scalar a, scalar b) { return eqv(a, b) | (a < b) ? 1 : 0; }
static scalar f_min(scalar a, scalar b) { return (a != a) | (b != b) ? fl::nan : b < a ? b : a; }
static scalar f_max(scalar a, scalar b) { return (a != a) | (b != b) ? fl::nan : a < b ? b : a; }
static scalar f_round(scalar x) { return x > 0 ? std::floor(x + 0.5) : std::ceil(x - 0.5); }
#define M1(n) static scalar m_##n(scalar x) { return std::n(x); }
M1(acos) M1(asin) M1(atan) M1(ceil) M1(cos) M1(cosh) M1(exp) M1(fabs) M1(floor) M1(log) M1(log10) M1(sin) M1(sinh) M1(sqrt) M1(tan) M1(tanh) M1(acosh) M1(asinh) M1(atanh) M1(log1p)
struct Fn { const char* name; F1 one; F2 two; };
static const Fn fns[] = {{"abs", m_fabs, 0}, {"acos", m_acos, 0}, {"asin", m_asin, 0}, {"atan", m_atan, 0}, {"ceil", m_ceil, 0}, {"cos", m_cos, 0}, {"cosh", m_cosh, 0}, {"exp", m_exp, 0}, {"fabs", m_fabs, 0}, {"floor", m_floor, 0}, {"log", m_log, 0}, {"log10", m_log10, 0}, {"round", f_round, 0}, {"sin", m_sin, 0}, {"sinh", m_sinh, 0}, {"sqrt", m_sqrt, 0}, {"tan", m_tan, 0}, {"tanh", m_tanh, 0}, {"acosh", m_acosh, 0}, {"asinh", m_asinh, 0}, {"atanh", m_atanh, 0}, {"log1p", m_log1p, 0}, {"atan2", 0, f_atan2}, {"eq", 0, f_eq}, {"fmod", 0, f_mod}, {"ge", 0, f_ge}, {"gt", 0, f_gt}, {"le", 0, f_le}, {"lt", 0, f_lt}, {"max", 0, f_max}, {"min", 0, f_min}, {"neq", 0, f_neq}, {"pow", 0, f_pow}};
static const int FNS = sizeof fns / sizeof fns[0];
struct OpDef { const char* name; int prec; bool right; F2 f; };
static const OpDef ops[] = {{"^", 5, true, f_pow}, {"*", 4, false, f_mul}, {"/", 4, false, f_div}, {"%", 4, false, f_mod}, {"+", 3, false, f_add}, {"-", 3, false, f_sub}, {"and", 2, false, f_and}, {"or", 1, false, f_or}};
static const int OPS = 8;
struct Ref { // value and notations of a token list
    std::vector<S> t; size_t i; std::map<S, scalar> v; std::map<S, F1> one; std::map<S, F2> two; S post, pre; int nodes; // one, two: replacements of operators and functions
    scalar ap(const S& k, F1 f, scalar x) { std::map<S, F1>::iterator it = one.find(k); return it == one.end() ? f(x) : it->second(x); }
    scalar ap(const S& k, F2 f, scalar x, scalar y) { std::map<S, F2>::iterator it = two.find(k); return it == two.end() ? f(x, y) : it->second(x, y); }
    struct R { scalar x; S pre, post; };
    const S& tok() { static S end; return i < t.size() ? t[i] : end; }
    static R mk(const S& name, scalar x, const R* a, const R* b) { R r; r.x = x; r.pre = name + (a ? " " + a->pre : "") + (b ? " " + b->pre : ""); r.post = (a ? a->post + " " : "") + (b ? b->post + " " : "") + name; return r; }
    R primary() {
        S k = tok(); ++i;
        if (k == "(") { R r = climb(1); ++i; return r; }
        if (k == "!") { R r = primary(); ++nodes; return mk("!", ap("!", f_not, r.x), &r, 0); }
        if (k == "~") { R r = primary(); ++nodes; return mk("~", ap("~", f_neg, r.x), &r, 0); }
        for (int f = 0; f < FNS; ++f) if (k == fns[f].name) { ++i; ++nodes; R a = climb(1); if (fns[f].two) { ++i; R b = climb(1); ++i; return mk(k, ap(k, fns[f].two, a.x, b.x), &a, &b); } ++i; return mk(k, ap(k, fns[f].one, a.x), &a, 0); }
        return mk(k, v[k], 0, 0);
    }
    R climb(int prec) {
        R l = primary();
        for (;;) {
            const OpDef* o = 0; for (int k = 0; k < OPS; ++k) if (tok() == ops[k].name) o = &ops[k];
            if (!o || o->prec < prec) return l;
            ++i; ++nodes; R r = climb(o->right ? o->prec : o->prec + 1); l = mk(o->name, ap(o->name, o->f, l.x, r.x), &l, &r);
        }
    }
    scalar eval() { i = 0; nodes = 0; R r = climb(1); post = r.post; pre = r.pre; return r.x; }
};
static inline S join(const std::vector<S>& t, int style) { // 0 spaces, 1 as tight as possible, 2 mixed white space
    S s;
    for (size_t i = 0; i < t.size(); ++i) {
        bool word = t[i] == "and" || t[i] == "or";
        if (i && (style != 1 || word || t[i - 1] == "and" || t[i - 1] == "or")) s += style == 2 ? (i % 3 == 0 ? "\t" : i % 3 == 1 ? "  " : " \n") : " ";
        s += t[i];
    }
    return style == 2 ? " " + s + " " : s;
}
static inline std::vector<S> split(const S& s) { std::vector<S> r; S w; for (size_t i = 0; i <= s.size(); ++i) { if (i == s.size() || s[i] == ' ') { if (!w.empty()) r.push_back(w); w.clear(); } else w += s[i]; } return r; }
}
#endif
