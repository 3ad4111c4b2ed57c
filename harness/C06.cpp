// NaN, infinities, height scaling and range of every shape term.
// BOUNDS: parameters as in the term properties ([-8,8], widths >= 1/8), height in [1/8,1]; x: NaN, +inf, -inf and any real in [-20,20]; fp cases: every IEEE double x (NaN, infinities, denormals included) for fixed parameters (means, slopes and inflections up to 1e200 in size) of every shape term (for SigmoidDifference and one SigmoidProduct only the absence of NaN is decided there), and for the sigmoid every finite inflection and slope other than 0
// ASSUME: fp cases: the C library's exp, cos and pow keep their documented special values, signs and overflow limits (their values in between are arbitrary)
#include "terms.h"
#include <limits>
using namespace fl;
CASE(nan_and_infinity, "real", 17, 17, "") {
    Shape s = symShape(SUB, "p", -8, 8, true);
    std::unique_ptr<Term> t(build(s, "t", 0));
    scalar n = t->membership(std::numeric_limits<scalar>::quiet_NaN());
    sx_check(n != n, "membership of NaN is NaN");
    scalar u = t->membership(fl::inf), d = t->membership(-fl::inf);
    const scalar *p = s.p, h = s.h;
    scalar eu = 0.0, ed = 0.0;
    switch (s.kind) {
        case RAMP: case CONC: if (p[0] < p[1]) eu = h; else ed = h; break;
        case BIN: if (p[1] > p[0]) eu = h; else ed = h; break;
        case SSH: eu = h; break;
        case ZSH: ed = h; break;
        case SIG: if (p[1] > 0) eu = h; else ed = h; break;
        default: break;
    }
    sx_check(near(u, eu, 1e-9), "limit at +infinity");
    sx_check(near(d, ed, 1e-9), "limit at -infinity");
}
CASE(height, "real", 17, 17, "") {
    Shape s = symShape(SUB, "p", -8, 8, true);
    std::unique_ptr<Term> t(build(s, "t", 0));
    Shape s1 = s; s1.h = 1.0;
    std::unique_ptr<Term> t1(build(s1, "t", 0));
    scalar x = sx_real("x", -20, 20);
    scalar v = t->membership(x);
    sx_check(near(v, s.h * t1->membership(x), 1e-9), "height scales the membership");
    std::unique_ptr<Term> c(t->clone());
    t->setHeight(1.0);
    sx_check(near(t->membership(x), t1->membership(x), 1e-9), "setting the height to 1 restores the shape");
    sx_check(near(c->membership(x), v, 1e-12) && c->getName() == "t" && c->className() == t->className(), "clone is equal and independent");
}
CASE(every_double, "fp", 16, 16, "time=120 qtime=8000 cost=9") {
    Shape s; s.kind = SUB / 2; s.h = 1.0; s.n = 4;
    static const scalar P[8][2][4] = {{{-1, 0, 1, 0}, {0.5, 2.5, 2.5, 0}}, {{-2, -1, 1, 2}, {0, 0, 1, 2}}, {{0, 1, 0, 0}, {2, -2, 0, 0}}, {{-1, 1, 0, 0}, {0, 0.5, 0, 0}},
        {{0, fl::inf, 0, 0}, {0.5, -fl::inf, 0, 0}}, {{0, 1, 0, 0}, {1, -1, 0, 0}}, {{0, 1, 0, 0}, {-1, 3, 0, 0}}, {{0, 1, 0, 0}, {-1, 3, 0, 0}}};
    for (int i = 0; i < 4; ++i) s.p[i] = P[s.kind][SUB % 2][i];
    std::unique_ptr<Term> t(build(s, "t", 0));
    scalar x = sx_fp("x");
    scalar v = t->membership(x);
    sx_check((x != x) == (v != v), "NaN exactly for NaN");
    sx_check((x != x) | between(v, -1e-5, 1.0 + 1e-5), "range [0,height] for every double");
}
CASE(every_double_smooth, "fp", 18, 18, "time=120 qtime=8000 cost=9") {
    static const struct { int kind; scalar p[4]; } P[18] = {{SIG, {0.5, 8, 0, 0}}, {SIG, {-2, -30, 0, 0}}, {SIG, {1e200, 1e-3, 0, 0}},
        {SIGD, {-1, 8, 4, 2}}, {SIGD, {-4, 1024, 65536, 2}}, {SIGP, {-1, 8, -4, 2}}, {SIGP, {-4, 1024, -32, 65536}},
        {BELL, {0.5, 1, 3, 0}}, {BELL, {1e200, 1e-3, 0.5, 0}}, {COSI, {0.5, 3, 0, 0}}, {COSI, {1e8, 1e3, 0, 0}},
        {GAUS, {0.5, 0.35, 0, 0}}, {GAUS, {1e200, 1, 0, 0}}, {GAUS, {1e8, 1e-3, 0, 0}}, {GAUP, {-1, 0.5, 1, 2}}, {GAUP, {-1e160, 1, 1e200, 1e-3}}, {SPIK, {0.5, 1, 0, 0}}, {SPIK, {-1e200, 1e-3, 0, 0}}};
    Shape s; s.kind = P[SUB].kind; s.h = 1.0; s.n = 4;
    for (int i = 0; i < 4; ++i) s.p[i] = P[SUB].p[i];
    std::unique_ptr<Term> t(build(s, "t", 0));
    scalar x = sx_fp("x");
    scalar v = t->membership(x);
    sx_check((x != x) == (v != v), "NaN exactly for NaN");
    if (s.kind != SIGD && SUB != 6) sx_check((x != x) | between(v, -1e-5, 1.0 + 1e-5), "range [0,height] for every double");
}
CASE(every_sigmoid, "fp", 1, 1, "time=120 qtime=8000 cost=9") {
    scalar x = sx_fp("x"), c = sx_fp("c"), k = sx_fp("k");
    sx_assume((c == c) & (c < fl::inf) & (c > -fl::inf) & (k == k) & (k < fl::inf) & (k > -fl::inf) & (k != 0.0));
    Sigmoid t("t", c, k);
    scalar v = t.membership(x);
    sx_check((x != x) == (v != v), "NaN exactly for NaN");
    sx_check((x != x) | between(v, 0.0, 1.0), "range [0,height] for every double");
}
