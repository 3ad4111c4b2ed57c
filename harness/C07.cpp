// Monotonic terms: the Tsukamoto value is the inverse of the membership function.
// BOUNDS: parameters in [-8,8] with widths/slopes of magnitude at least 1/8, height in [1/8,1], activation degree y in (0,height) with a margin of 1e-3*height, exact reals (sqrt by its equation, exp/log as inverse real functions)
#include "terms.h"
using namespace fl;
static const int mono[] = {RAMP, CONC, SSH, ZSH, SIG};
CASE(inverse, "real", 5, 5, "time=120") { // membership(tsukamoto(y)) = y
    Shape s = symShape(mono[SUB], "p", -8, 8, false);
    std::unique_ptr<Term> t(build(s, "t", 0));
    sx_check(t->isMonotonic(), "declared monotonic");
    scalar r = sx_real("y", 0.001, 0.999);
    scalar y = r * s.h;
    if (s.kind == SSH || s.kind == ZSH) sx_assume((r < 0.5 - 1e-3) | (r > 0.5 + 1e-3));
    scalar x = t->tsukamoto(y);
    sx_check(near(t->membership(x), y, 1e-4), "membership of the tsukamoto value is the activation degree");
}
CASE(preimage, "real", 5, 5, "time=120") { // tsukamoto(membership(x)) = x on the strictly monotone part
    Shape s = symShape(mono[SUB], "p", -8, 8, false, SUB != 4);
    std::unique_ptr<Term> t(build(s, "t", 1));
    scalar x = sx_real("x", -8, 8);
    const scalar* p = s.p;
    if (s.kind == RAMP) sx_assume((x >= mn(p[0], p[1]) + 1e-3) & (x <= mx(p[0], p[1]) - 1e-3));
    if (s.kind == CONC) sx_assume(p[0] < p[1] ? x <= p[1] - 1e-3 : x >= p[1] + 1e-3);
    if (s.kind == SSH || s.kind == ZSH) sx_assume((x >= p[0] + 1e-3) & (x <= p[1] - 1e-3) & (std::fabs(x - 0.5 * (p[0] + p[1])) > 1e-3));
    sx_check(near(t->tsukamoto(t->membership(x)), x, 1e-3), "tsukamoto recovers the value");
}
CASE(order, "real", 5, 5, "time=120") { // strictly monotone in the declared direction
    Shape s = symShape(mono[SUB], "p", -8, 8, false);
    std::unique_ptr<Term> t(build(s, "t", 0));
    scalar y1 = sx_real("y1", 0.001, 0.999) * s.h, y2 = sx_real("y2", 0.001, 0.999) * s.h;
    sx_assume(y1 < y2);
    scalar x1 = t->tsukamoto(y1), x2 = t->tsukamoto(y2);
    bool inc = s.kind == SSH || (s.kind != ZSH && (s.kind == SIG ? s.p[1] > 0 : s.p[0] < s.p[1]));
    sx_check(inc ? x1 <= x2 + 1e-6 : x1 >= x2 - 1e-6, "tsukamoto is monotone in the activation degree");
}
CASE(landmarks, "real", 5, 5, "") {
    Shape s = symShape(mono[SUB], "p", -8, 8, false);
    std::unique_ptr<Term> t(build(s, "t", 0));
    const scalar *p = s.p, h = s.h;
    if (s.kind == RAMP) sx_check(near(t->tsukamoto(0.0), p[0], 1e-9) & near(t->tsukamoto(h), p[1], 1e-9) & near(t->tsukamoto(0.5 * h), 0.5 * (p[0] + p[1]), 1e-9), "ramp ends and middle");
    if (s.kind == CONC) sx_check(near(t->tsukamoto(h), p[1], 1e-9) & near(t->tsukamoto(0.5 * h), p[0], 1e-9), "concave end and inflection");
    if (s.kind == SSH) sx_check(near(t->tsukamoto(0.0), p[0], 1e-9) & near(t->tsukamoto(h), p[1], 1e-9) & near(t->tsukamoto(0.5 * h), 0.5 * (p[0] + p[1]), 1e-9), "s-shape ends and middle");
    if (s.kind == ZSH) sx_check(near(t->tsukamoto(0.0), p[1], 1e-9) & near(t->tsukamoto(h), p[0], 1e-9) & near(t->tsukamoto(0.5 * h), 0.5 * (p[0] + p[1]), 1e-9), "z-shape ends and middle");
    if (s.kind == SIG) sx_check(near(t->tsukamoto(0.5 * h), p[0], 1e-9), "sigmoid inflection");
}
CASE(refused, "real", 12, 12, "") { // terms that are not monotonic refuse
    static const int non[] = {TRI, TRA, RECT, BIN, PISH, SIGD, SIGP, BELL, COSI, GAUS, GAUP, SPIK};
    Shape s = symShape(non[SUB], "p", -8, 8, true, false);
    std::unique_ptr<Term> t(build(s, "t", 0));
    sx_check(!t->isMonotonic(), "not declared monotonic");
    scalar y = sx_real("y", 0, 1);
    bool thrown = false;
    try { t->tsukamoto(y); } catch (Exception&) { thrown = true; }
    sx_check(thrown, "tsukamoto of a non-monotonic term is an error");
}
