// Piecewise membership functions follow their documented definition.
// BOUNDS: x in [-20,20], parameters in [-8,8] (ordered as documented, edges vertical or at least 1/8 wide), height in [1/8,1] (up to 4, crossing shoulders, finite directions in any_parameters), exact reals; open (infinite) sides for triangle and trapezoid; construction by constructor and by factory + setters
// BOUNDS: x within 4e-6 of a vertex but not on it is outside the claim for triangle, trapezoid, rectangle and binary; elsewhere the tolerance is 1e-4 (1e-6 comparison tolerance / minimal edge width)
#include "terms.h"
using namespace fl;
CASE(formula, "real", 18, 18, "cost=5 time=150") {
    Shape s = symShape(SUB % 9, "p", -8, 8, true);
    std::unique_ptr<Term> t(build(s, "t", SUB / 9));
    sx_check(t->className() == shapeNames[s.kind] && t->getName() == "t", "named shape");
    scalar x = sx_real("x", -20, 20);
    fenceShape(s, x);
    scalar v = t->membership(x);
    sx_check(near(v, refPiecewise(s, x), 1e-4), "documented membership");
}
// crossing shoulders, finite directions, coincident ends and heights above 1
CASE(any_parameters, "real", 9, 9, "cost=5 time=150") {
    Shape s = symShape(SUB, "p", -8, 8, true, true, true);
    if (s.kind == CONC && sx_bool("flat")) s.p[1] = s.p[0];
    std::unique_ptr<Term> t(build(s, "t", 0));
    scalar x = sx_real("x", -20, 20);
    fenceShape(s, x);
    if (s.kind == CONC) crisp(x, s.p[1]);
    if (s.kind == BIN) sx_assume(s.p[1] > s.p[0] ? x < s.p[1] : x > s.p[1]); // beyond a finite direction the documentation and the code differ
    sx_check(near(t->membership(x), refPiecewise(s, x), 4e-4), "documented membership");
}
// two vertices, or the extremes only: the vertices between are placed as documented
CASE(short_forms, "real", 2, 2, "") {
    scalar a = sx_real("a", -8, 8), b = sx_real("b", -8, 8), h = sx_real("h", W, 2);
    sx_assume(b >= a + W);
    if (SUB == 0) { Triangle t("t", a, b, fl::nan, h); sx_check((t.getVertexA() == a) & near(t.getVertexB(), 0.5 * (a + b), 1e-9) & (t.getVertexC() == b) & (t.getHeight() == h), "triangle of two vertices"); }
    else { Trapezoid t("t", a, b, fl::nan, fl::nan, h); sx_check((t.getVertexA() == a) & near(t.getVertexB(), a + (b - a) / 5, 1e-9) & near(t.getVertexC(), b - (b - a) / 5, 1e-9) & (t.getVertexD() == b) & (t.getHeight() == h), "trapezoid of two vertices"); }
}
CASE(open_sides, "real", 8, 8, "") {
    scalar a = sx_real("a", -8, 8), b = sx_real("b", -8, 8), x = sx_real("x", -20, 20), h = sx_real("h", W, 1);
    sx_assume(b >= a + W);
    crisp(x, a); crisp(x, b);
    scalar v, e;
    if (SUB == 0) { Triangle t("t", -fl::inf, a, b, h); v = t.membership(x); e = x <= a ? h : x > b ? 0.0 : h * (b - x) / (b - a); }
    else if (SUB == 1) { Triangle t("t", a, b, fl::inf, h); v = t.membership(x); e = x >= b ? h : x < a ? 0.0 : h * (x - a) / (b - a); }
    else if (SUB == 2) { Trapezoid t("t", -fl::inf, -fl::inf, a, b, h); v = t.membership(x); e = x <= a ? h : x > b ? 0.0 : h * (b - x) / (b - a); }
    else if (SUB == 3) { Trapezoid t("t", a, b, fl::inf, fl::inf, h); v = t.membership(x); e = x >= b ? h : x < a ? 0.0 : h * (x - a) / (b - a); }
    else { // one vertex at infinity, everything else finite
        scalar c = sx_real("c", -8, 8); sx_assume(c >= b + W); crisp(x, c);
        if (SUB == 4) { Trapezoid t("t", -fl::inf, a, b, c, h); v = t.membership(x); e = x <= b ? h : x > c ? 0.0 : h * (c - x) / (c - b); }
        else if (SUB == 5) { Trapezoid t("t", a, b, c, fl::inf, h); v = t.membership(x); e = x >= b ? h : x < a ? 0.0 : h * (x - a) / (b - a); }
        else if (SUB == 6) { Trapezoid t("t", -fl::inf, a, b, fl::inf, h); v = t.membership(x); e = h; }
        else { Triangle t("t", -fl::inf, a, fl::inf, h); v = t.membership(x); e = h; }
    }
    sx_check(near(v, e, 1e-4), "open side stays at the height");
}
CASE(shape_laws, "real", 9, 9, "cost=9 time=150") { // relations between two points of the same shape
    Shape s = symShape(SUB, "p", -8, 8, false, false);
    std::unique_ptr<Term> t(build(s, "t", 0));
    scalar x = sx_real("x", -20, 20), y = sx_real("y", -20, 20);
    fenceShape(s, x); fenceShape(s, y);
    sx_assume(x <= y);
    scalar v = t->membership(x), w = t->membership(y);
    bool inc = false, dec = false;
    const scalar* p = s.p;
    switch (s.kind) {
        case TRI: inc = y <= p[1]; dec = x >= p[1]; break;
        case TRA: inc = y <= p[2]; dec = x >= p[1]; break;
        case RAMP: case CONC: inc = p[0] < p[1]; dec = p[0] > p[1]; break;
        case RECT: inc = y <= p[1]; dec = x >= p[0]; break;
        case BIN: inc = p[1] > p[0]; dec = !inc; break;
        case SSH: inc = true; break;
        case ZSH: dec = true; break;
        default: inc = y <= p[2]; dec = x >= p[1]; break;
    }
    sx_check((!inc) | (v <= w + 1e-4), "rises on the rising side");
    sx_check((!dec) | (v >= w - 1e-4), "falls on the falling side");
    sx_check(between(v, -1e-4, 1.0 + 1e-4), "stays in [0,height]");
}
