// Discrete terms interpolate linearly between their sorted points and are flat outside them.
// BOUNDS: 1 to 5 points (thorough: 8) with symbolic x in [-8,8] at least 1/8 apart and y in [0,1], height in [1/8,1], x in [-20,20] or NaN/infinite; exact reals; tolerance 1e-4
// BOUNDS: discretize at resolution 1..4 of a triangle with symbolic vertices; sort of 4 points with pairwise distinct symbolic x
#include "terms.h"
using namespace fl;
static std::vector<Discrete::Pair> points(int n) {
    std::vector<Discrete::Pair> v;
    char nm[16];
    for (int i = 0; i < n; ++i) {
        std::snprintf(nm, sizeof nm, "x%d", i); scalar x = sx_real(nm, -8, 8);
        std::snprintf(nm, sizeof nm, "y%d", i); scalar y = sx_real(nm, 0, 1);
        if (i) sx_assume(x >= v.back().first + W);
        v.push_back(Discrete::Pair(x, y));
    }
    return v;
}
CASE(interpolation, "real", 5, 8, "time=100") {
    int n = SUB + 1;
    std::vector<Discrete::Pair> v = points(n);
    scalar h = sx_real("h", W, 1), x = sx_real("x", -20, 20);
    Discrete t("d", v, h);
    scalar e;
    if (x <= v[0].first) e = v[0].second;
    else if (x >= v[n - 1].first) e = v[n - 1].second;
    else { int i = 1; while (!(x <= v[i].first)) ++i; e = v[i - 1].second + (v[i].second - v[i - 1].second) * ((x - v[i - 1].first) / (v[i].first - v[i - 1].first)); }
    scalar r = t.membership(x);
    sx_check(near(r, h * e, 1e-4), "linear interpolation, flat ends");
    sx_check(between(r, -1e-4, h + 1e-4), "stays in [0,height]");
    std::unique_ptr<Discrete> c(t.clone());
    sx_check(near(c->membership(x), r, 1e-9), "clone interpolates the same");
}
CASE(limits, "real", 4, 4, "") {
    int n = SUB + 1;
    std::vector<Discrete::Pair> v = points(n);
    scalar h = sx_real("h", W, 1);
    Discrete t("d"); t.setXY(v); t.setHeight(h);
    scalar m = t.membership(fl::nan);
    sx_check(m != m, "NaN for NaN");
    sx_check(near(t.membership(-fl::inf), h * v[0].second, 1e-9) & near(t.membership(fl::inf), h * v[n - 1].second, 1e-9), "flat to infinity");
    bool ok = true;
    for (int i = 0; i < n; ++i) ok = ok & near(t.membership(v[i].first), h * v[i].second, 1e-9);
    sx_check(ok, "interpolates its own points");
    bool thrown = false;
    try { Discrete().membership(h); } catch (Exception&) { thrown = true; }
    sx_check(thrown, "a term without points is an error");
}
CASE(conversions, "real", 3, 3, "") {
    int n = SUB + 1;
    std::vector<Discrete::Pair> v = points(n);
    std::vector<scalar> flat = Discrete::toVector(v);
    sx_check((int)flat.size() == 2 * n, "two values per point");
    std::vector<Discrete::Pair> back = Discrete::toPairs(flat);
    bool ok = back.size() == v.size();
    for (int i = 0; i < n && ok; ++i) ok = ok & (flat[2 * i] == v[i].first) & (flat[2 * i + 1] == v[i].second) & (back[i].first == v[i].first) & (back[i].second == v[i].second);
    sx_check(ok, "pairs and vectors convert into each other");
    Discrete t("d", v);
    ok = true;
    std::vector<scalar> xs = t.x(), ys = t.y();
    for (int i = 0; i < n; ++i) ok = ok & (xs[i] == v[i].first) & (ys[i] == v[i].second) & (t.x(i) == v[i].first) & (t.y(i) == v[i].second);
    sx_check(ok, "x() and y() are the coordinates");
    flat.push_back(0.5);
    bool thrown = false;
    try { Discrete::toPairs(flat); } catch (Exception&) { thrown = true; }
    sx_check(thrown, "an odd number of values is an error");
    std::vector<Discrete::Pair> padded = Discrete::toPairs(flat, 0.25);
    sx_check((int)padded.size() == n + 1 && padded[n].first == 0.5 && padded[n].second == 0.25, "missing value completes the last pair");
}
CASE(discretize, "real", 4, 8, "time=100") {
    Shape s = symShape(TRI, "p", -8, 8, false, false);
    std::unique_ptr<Term> t(build(s, "t", 0));
    scalar lo = sx_real("lo", -8, 0), hi = sx_real("hi", 0, 8);
    sx_assume(hi >= lo + 1);
    int n = SUB + 1;
    for (int i = 0; i <= n; ++i) fenceShape(s, lo + (hi - lo) * i / n);
    std::unique_ptr<Discrete> d(Discrete::discretize(t.get(), lo, hi, n));
    bool ok = (int)d->xy().size() == n + 1 && d->getName() == "t";
    for (int i = 0; i <= n && ok; ++i) {
        scalar x = lo + (hi - lo) * i / n;
        ok = ok & near(d->x(i), x, 1e-6) & near(d->y(i), t->membership(x), 1e-3);
    }
    sx_check(ok, "samples at equally spaced values including both ends");
}
CASE(sorting, "real", 1, 1, "time=100") {
    std::vector<Discrete::Pair> v;
    for (int i = 0; i < 4; ++i) { char nm[8]; std::snprintf(nm, sizeof nm, "x%d", i); v.push_back(Discrete::Pair(sx_real(nm, -8, 8), i)); }
    for (int i = 0; i < 4; ++i) for (int j = 0; j < i; ++j) sx_assume(std::fabs(v[i].first - v[j].first) > 1e-3);
    Discrete t("d", v);
    t.sort();
    bool ok = t.xy().size() == 4;
    int seen = 0;
    for (int i = 0; i < 4; ++i) {
        int k = (int)t.y(i);
        ok = ok & (t.x(i) == v[k].first) & (i == 0 || t.x(i - 1) < t.x(i));
        seen |= 1 << k;
    }
    sx_check(ok & (seen == 15), "sorting permutes the points into ascending order");
}
