// Smooth membership functions (sigmoid family, bell, cosine, gaussian family, spike).
// BOUNDS: x in [-20,20], centres in [-8,8], widths/deviations/slopes of magnitude 1/8..8, height in [1/8,1] (up to 4, with inflections, means and slopes of any order and sign, in the case any_parameters), exact reals; exp, pow and cos are the real functions known through axioms (positivity, monotonicity, values at 0, exp(-t)=1/exp(t), |cos|<=1 ...)
// BOUNDS: the case far has widths of 1/8192..1/128, steepness of 128..8192 and bell slopes of 1/128..1/2
// BOUNDS: for the cosine, x within 4e-6 of the ends of the support is outside the claim
#include "terms.h"
using namespace fl;
static scalar ref(const Shape& s, scalar x) {
    const scalar* p = s.p;
    switch (s.kind) {
        case SIG: return s.h / (1.0 + std::exp(-p[1] * (x - p[0])));
        case SIGD: return s.h * std::fabs(1.0 / (1.0 + std::exp(-p[1] * (x - p[0]))) - 1.0 / (1.0 + std::exp(-p[2] * (x - p[3]))));
        case SIGP: return s.h * (1.0 / (1.0 + std::exp(-p[1] * (x - p[0])))) * (1.0 / (1.0 + std::exp(-p[2] * (x - p[3]))));
        case BELL: return s.h / (1.0 + std::pow(std::fabs((x - p[0]) / p[1]), 2.0 * p[2]));
        case COSI: return x < p[0] - 0.5 * p[1] || x > p[0] + 0.5 * p[1] ? 0.0 : s.h * 0.5 * (1.0 + std::cos(2.0 / p[1] * (4.0 * std::atan(1.0)) * (x - p[0])));
        case GAUS: return s.h * std::exp(-(x - p[0]) * (x - p[0]) / (2.0 * p[1] * p[1]));
        case GAUP: return s.h * (x < p[0] ? std::exp(-(x - p[0]) * (x - p[0]) / (2.0 * p[1] * p[1])) : 1.0) * (x > p[2] ? std::exp(-(x - p[2]) * (x - p[2]) / (2.0 * p[3] * p[3])) : 1.0);
        default: return s.h * std::exp(-std::fabs(10.0 / p[1] * (x - p[0])));
    }
}
CASE(formula, "real", 16, 16, "") {
    Shape s = symShape(SIG + SUB % 8, "p", -8, 8, true);
    std::unique_ptr<Term> t(build(s, "t", SUB / 8));
    sx_check(t->className() == shapeNames[s.kind] && t->getName() == "t", "named shape");
    scalar x = sx_real("x", -20, 20);
    fenceShape(s, x);
    sx_check(near(t->membership(x), ref(s, x), 1e-6), "documented membership");
}
// whatever the order of the inflections or means, the signs of the slopes, and for heights above 1
CASE(any_parameters, "real", 8, 8, "") {
    Shape s = symShape(SIG + SUB % 8, "p", -8, 8, true, true, true);
    std::unique_ptr<Term> t(build(s, "t", 0));
    scalar x = sx_real("x", -20, 20);
    fenceShape(s, x);
    sx_check(near(t->membership(x), ref(s, x), 1e-5), "documented membership");
}
// narrow or steep shapes seen from far away (up to some 160000 widths), with slow bells
CASE(far, "real", 8, 8, "") {
    Shape s = symShape(SIG + SUB % 8, "p", -8, 8, true, true, true);
    scalar k = 1.0 / 1024.0;
    if (s.kind == SIG) s.p[1] /= k;
    else if (s.kind == SIGD || s.kind == SIGP) s.p[1] /= k, s.p[2] /= k;
    else s.p[1] *= k;
    if (s.kind == GAUP) s.p[3] *= k;
    if (s.kind == BELL) s.p[2] /= 16.0;
    std::unique_ptr<Term> t(build(s, "t", 1));
    scalar x = sx_real("x", -20, 20);
    fenceShape(s, x);
    sx_check(near(t->membership(x), ref(s, x), 1e-5), "documented membership");
}
// values that are known exactly
CASE(landmarks, "real", 8, 8, "") {
    Shape s = symShape(SIG + SUB, "p", -8, 8, true);
    std::unique_ptr<Term> t(build(s, "t", 0));
    const scalar *p = s.p, h = s.h;
    if (s.kind == SIG) sx_check(near(t->membership(p[0]), 0.5 * h, 1e-6), "half height at the inflection");
    if (s.kind == BELL) {
        sx_check(near(t->membership(p[0]), h, 1e-6), "height at the centre");
        sx_check(near(t->membership(p[0] + p[1]), 0.5 * h, 1e-6) & near(t->membership(p[0] - p[1]), 0.5 * h, 1e-6), "half height one width away");
    }
    if (s.kind == COSI || s.kind == GAUS || s.kind == SPIK) sx_check(near(t->membership(p[0]), h, 1e-6), "height at the centre");
    if (s.kind == COSI) { scalar d = sx_real("d", 0.001, 20); sx_check((t->membership(p[0] + 0.5 * p[1] + d) == 0.0) & (t->membership(p[0] - 0.5 * p[1] - d) == 0.0), "zero outside the support"); }
    if (s.kind == GAUP) {
        scalar x = sx_real("x", -8, 8);
        sx_assume((x >= p[0]) & (x <= p[2]));
        sx_check(near(t->membership(x), h, 1e-4), "height between the means");
    }
    if (s.kind == SIGD) sx_check(t->membership(0.5 * (p[0] + p[3])) >= -1e-9, "non-negative between the inflections");
    if (s.kind == SIGP) sx_check(t->membership(p[0]) <= 0.5 * h + 1e-9, "at most half height at an inflection");
}
CASE(symmetry, "real", 4, 4, "") {
    static const int which[] = {BELL, COSI, GAUS, SPIK};
    Shape s = symShape(which[SUB], "p", -8, 8, true);
    std::unique_ptr<Term> t(build(s, "t", 1));
    scalar d = sx_real("d", 0, 20);
    fenceShape(s, s.p[0] + d); fenceShape(s, s.p[0] - d);
    sx_check(near(t->membership(s.p[0] + d), t->membership(s.p[0] - d), 1e-6), "symmetric around the centre");
}
CASE(direction, "real", 6, 6, "") {
    static const int which[] = {SIG, BELL, COSI, GAUS, GAUP, SPIK};
    Shape s = symShape(which[SUB], "p", -8, 8, true);
    std::unique_ptr<Term> t(build(s, "t", 0));
    scalar x = sx_real("x", -20, 20), y = sx_real("y", -20, 20);
    sx_assume(x <= y);
    if (s.kind == GAUP) sx_assume((y <= s.p[0]) | (x >= s.p[2]));
    else if (s.kind != SIG) sx_assume((y <= s.p[0]) | (x >= s.p[0]));
    fenceShape(s, x); fenceShape(s, y);
    scalar v = t->membership(x), w = t->membership(y);
    bool inc = s.kind == SIG ? s.p[1] > 0 : y <= s.p[0];
    sx_check(between(v, -1e-9, s.h + 1e-9) & between(w, -1e-9, s.h + 1e-9), "stays in [0,height]");
    sx_check(inc ? v <= w + 1e-6 : v >= w - 1e-6, "rises towards the centre and falls away from it");
}
CASE(range, "real", 2, 2, "") {
    Shape s = symShape(SIGD + SUB, "p", -8, 8, true);
    std::unique_ptr<Term> t(build(s, "t", 0));
    scalar x = sx_real("x", -20, 20);
    sx_check(between(t->membership(x), -1e-9, s.h + 1e-9), "stays in [0,height]");
}
