// Numeric operations: comparisons with tolerance, bounds, rounding, scaling, midpoints, statistics.
// BOUNDS: every IEEE double for comparisons, minimum, maximum, bounds, ranges and predicates; exact reals for rounding, scaling, midpoints (1-6) and statistics (0-4 values)
#include "common.h"
#include <cmath>
static bool nan_(scalar a) { return a != a; }
CASE(compare, "fp", 3, 3, "cost=4 time=200") {
    scalar a = sx_fp("a"), b = sx_fp("b"), t = 1e-6; if (SUB) { t = sx_fp("t"); sx_assume((t >= 0) & (t < 1e300)); }
    bool eq, lt, gt, le, ge, cl, ne;
    if (SUB == 0) { eq = Op::isEq(a, b); lt = Op::isLt(a, b); gt = Op::isGt(a, b); le = Op::isLE(a, b); ge = Op::isGE(a, b); cl = Op::isClose(a, b); ne = Op::neq(a, b) == 1;
        sx_check((Op::eq(a, b) == (eq ? 1 : 0)) & (Op::lt(a, b) == (lt ? 1 : 0)) & (Op::gt(a, b) == (gt ? 1 : 0)) & (Op::le(a, b) == (le ? 1 : 0)) & (Op::ge(a, b) == (ge ? 1 : 0)) & (ne == !eq), "comparison functions give 1 or 0"); }
    else { eq = Op::isEq(a, b, t); lt = Op::isLt(a, b, t); gt = Op::isGt(a, b, t); le = Op::isLE(a, b, t); ge = Op::isGE(a, b, t); cl = Op::isClose(a, b, t); }
    if (SUB < 2) {
        bool want = (a == b) | (std::fabs(a - b) < t) | (nan_(a) & nan_(b));
        sx_check((eq == want) & (cl == want), "equal when identical, both NaN or closer than the tolerance");
        sx_check(lt == ((!want) & (a < b)), "less than"); sx_check(gt == ((!want) & (a > b)), "greater than"); sx_check(le == (want | (a < b)), "less or equal"); sx_check(ge == (want | (a > b)), "greater or equal");
    } else {
        bool one = nan_(a) != nan_(b); sx_check(one ? !(lt | eq | gt) : (int)lt + eq + gt == 1, "exactly one of less, equal, greater unless one is NaN");
        sx_check((le == (lt | eq)) & (ge == (gt | eq)), "or equal"); sx_check(Op::isEq(a, a, t), "every value equals itself");
    }
}
CASE(mirrored, "real", 1, 1, "cost=1 time=60") { scalar a = sx_real("a", -100, 100), b = sx_real("b", -100, 100), t = sx_real("t", 0, 10); sx_check((Op::isEq(b, a, t) == Op::isEq(a, b, t)) & (Op::isLt(b, a, t) == Op::isGt(a, b, t)) & (Op::isGE(b, a, t) == Op::isLE(a, b, t)), "mirrored"); }
CASE(extremes, "fp", 3, 3, "cost=3 time=120") {
    scalar a = sx_fp("a"), b = sx_fp("b"), c = sx_fp("c");
    if (SUB == 0) {
        scalar lo = Op::min(a, b), hi = Op::max(a, b); bool n = nan_(a) | nan_(b);
        sx_check(n ? nan_(lo) & nan_(hi) : (lo <= a) & (lo <= b) & (hi >= a) & (hi >= b) & ((lo == a) | (lo == b)) & ((hi == a) | (hi == b)), "minimum and maximum, NaN if one is NaN");
    } else if (SUB == 1) {
        sx_assume(b <= c); scalar x = Op::bound(a, b, c);
        sx_check(same(x, nan_(a) ? a : a < b ? b : a > c ? c : a), "bounded to the range");
        sx_check(nan_(a) | ((x >= b) & (x <= c)), "inside the range"); sx_check(same(Op::bound(x, b, c), x), "bounding twice changes nothing");
    } else {
        bool ge = sx_choice("ge", 2), le = sx_choice("le", 2);
        bool want = (ge ? Op::isGE(a, b) : Op::isGt(a, b)) & (le ? Op::isLE(a, c) : Op::isLt(a, c)); sx_check(Op::in(a, b, c, ge, le) == want, "inside the open or closed range"); if (ge && le) sx_check(Op::in(a, b, c) == want, "closed by default");
        sx_check((Op::isNaN(a) == nan_(a)) & (Op::isInf(a) == ((a == INFINITY) | (a == -INFINITY))) & (Op::isFinite(a) == ((a - a) == 0)), "NaN, infinite, finite");
    }
}
CASE(exact, "fp", 1, 1, "cost=2 time=120") {
    scalar a = sx_fp("a"), b = sx_fp("b");
    sx_check(same(Op::add(a, b), a + b) & same(Op::subtract(a, b), a - b) & same(Op::multiply(a, b), a * b) & same(Op::divide(a, b), a / b) & same(Op::negate(a), -a), "arithmetic"); sx_check(same(Op::modulo(a, b), std::fmod(a, b)), "modulo");
    bool p = Op::isEq(a, 1.0), q = Op::isEq(b, 1.0); sx_check((Op::logicalAnd(a, b) == (p & q ? 1 : 0)) & (Op::logicalOr(a, b) == (p | q ? 1 : 0)) & (Op::logicalNot(a) == (p ? 0 : 1)), "logic");
}
CASE(rounding, "real", 1, 1, "cost=2 time=60") {
    scalar x = sx_real("x", -1000, 1000), r = Op::round(x), f = std::floor(r);
    sx_check(r == f, "rounded to an integer"); sx_check(std::fabs(r - x) <= 0.5, "to the nearest"); sx_check(!(std::fabs(r - x) == 0.5) | (std::fabs(r) > std::fabs(x)), "halves away from zero"); sx_check(Op::round(-x) == -r, "symmetric"); sx_check(Op::round(r) == r, "integers stay");
}
CASE(scaling, "real", 3, 3, "cost=4 time=120 qtime_check=30000") {
    scalar x = sx_real("x", -50, 50), fl_ = sx_real("from", -10, 10), fw = sx_real("width", 0.125, 20), tl = sx_real("to", -10, 10), th = sx_real("top", -10, 10), fh = fl_ + fw;
    scalar y = Op::scale(x, fl_, fh, tl, th);
    if (SUB == 0) { scalar e = y - tl - (x - fl_) / fw * (th - tl); sx_check((e < 1e-6) & (e > -1e-6), "linear map of the ranges"); }
    else if (SUB == 1) { scalar a = Op::scale(fl_, fl_, fh, tl, th), b = Op::scale(fh, fl_, fh, tl, th) - th; sx_check(near(a, tl, 1e-9), "lower end"); sx_check((b < 1e-6) & (b > -1e-6), "upper end"); }
    else { sx_assume(tl <= th); scalar z = Op::scale(x, fl_, fh, tl, th, true); sx_check((z >= tl) & (z <= th) & (((y < tl) & (z == tl)) | ((y > th) & (z == th)) | ((y >= tl) & (y <= th) & (z == y))), "bounded"); sx_check(Op::scale(x, fl_, fh, tl, th, false) == y, "not bounded"); }
}
CASE(midpoints, "real", 6, 12, "cost=2 time=60") {
    int n = SUB + 1; scalar lo = sx_real("lo", -8, 8), hi = sx_real("hi", -8, 8); std::vector<scalar> m = Op::midpoints(lo, hi, n); sx_check((int)m.size() == n, "as many as asked for"); bool ok = true;
    for (int i = 0; i < (int)m.size(); ++i) ok = ok & near(m[i] * n, lo * n + (i + 0.5) * (hi - lo), 1e-6); sx_check(ok, "middle of every part"); sx_check(Op::midpoints(lo, hi, 0).empty(), "none");
}
CASE(statistics, "real", 5, 6, "cost=4 time=120 qtime_check=30000") {
    int n = SUB; std::vector<scalar> v; scalar sum = 0, dev = 0; static const char* const nm[] = {"a", "b", "c", "d", "e"}; for (int i = 0; i < n; ++i) { v.push_back(sx_real(nm[i], -10, 10)); sum += v[i]; }
    sx_check(near(Op::sum(v), sum, 1e-9), "sum"); scalar m = Op::mean(v), var = Op::variance(v), sd = Op::standardDeviation(v);
    if (!n) { sx_check(nan_(m) & nan_(var) & nan_(sd), "nothing has no mean, variance or deviation"); return; }
    sx_check(near(m * n, sum, 1e-9), "mean"); for (int i = 0; i < n; ++i) dev += (v[i] - m) * (v[i] - m);
    if (n == 1) { sx_check((var == 0) & (sd == 0), "one value has no variance"); return; }
    scalar e = var * (n - 1) - dev; sx_check((e < 1e-6) & (e > -1e-6), "sample variance"); scalar g = sx_real("g", -10, 10), vg = Op::variance(v, g), w = 0; for (int i = 0; i < n; ++i) w += (v[i] - g) * (v[i] - g); e = vg * (n - 1) - w; sx_check((e < 1e-6) & (e > -1e-6), "variance around a given mean");
    e = sd * sd - var; sx_check((sd >= 0) & (e < 1e-6) & (e > -1e-6), "standard deviation"); scalar sg = Op::standardDeviation(v, g); e = sg * sg - vg; sx_check((sg >= 0) & (e < 1e-6) & (e > -1e-6), "standard deviation");
}
