// Integral defuzzifiers: centroid, bisector, smallest/largest/mean of maximum over the midpoints of the range.
// BOUNDS: resolution 1..7 (bisector 1..4, thorough 6 and 9) with a symbolic membership in [0,1] at every sample, symbolic range within [-8,8] at least 1/8 wide, exact reals; activated triangles and ramps with symbolic degrees at resolution 3..4; infinite and NaN ranges
// BOUNDS: bisector samples whose distances to half the area differ by less than 1e-6 without being the same cumulative area are outside the claim; total membership at least 1/100 for centroid and bisector
#include "terms.h"
using namespace fl;
static const char* const names[] = {"Centroid", "Bisector", "SmallestOfMaximum", "LargestOfMaximum", "MeanOfMaximum"};
// membership is piecewise constant: y[i] on the i-th of n equal slices of the range
struct Sampled : public Term {
    int n; scalar lo, hi, y[100];
    Sampled() : Term("sampled") {}
    S className() const { return "Sampled"; }
    S parameters() const { return ""; }
    void configure(const S&) {}
    Term* clone() const { return new Sampled(*this); }
    scalar membership(scalar x) const { scalar r = y[n - 1]; for (int i = n - 2; i >= 0; --i) r = x < lo + (i + 1) * ((hi - lo) / n) ? y[i] : r; return r; }
};
static Defuzzifier* make(int k, int res) {
    IntegralDefuzzifier* d = dynamic_cast<IntegralDefuzzifier*>(FactoryManager::instance()->defuzzifier()->constructObject(names[k]));
    d->setResolution(res);
    return d;
}
static void judge(int k, int n, scalar lo, scalar hi, const scalar* y, scalar v) {
    scalar x[100], sum = 0, top = -1;
    for (int i = 0; i < n; ++i) { x[i] = lo + (i + 0.5) * (hi - lo) / n; sum += y[i]; top = mx(top, y[i]); }
    if (k == 0) { scalar m = 0; for (int i = 0; i < n; ++i) m += x[i] * y[i]; sx_check(near(v * sum, m, 1e-7), "centroid of the samples"); return; }
    if (k == 1) {
        scalar cum[100], dist[100], best = 1e9, c = 0;
        for (int i = 0; i < n; ++i) { cum[i] = c += y[i]; dist[i] = std::fabs(cum[i] - 0.5 * sum); best = mn(best, dist[i]); }
        for (int i = 0; i < n; ++i) for (int j = 0; j < i; ++j) sx_assume((cum[i] == cum[j]) | (std::fabs(dist[i] - dist[j]) > 1e-6));
        scalar tot = 0, cnt = 0;
        for (int i = 0; i < n; ++i) { bool b = dist[i] <= best + 1e-7; tot += b ? x[i] : 0.0; cnt += b ? 1.0 : 0.0; }
        sx_check(near(v * cnt, tot, 1e-7), "mean of the samples that split the area most evenly");
        return;
    }
    scalar e = fl::nan, tot = 0, cnt = 0, first = 0, last = 0;
    (void)e;
    for (int i = 0; i < n; ++i) { bool b = y[i] == top; tot += b ? x[i] : 0.0; cnt += b ? 1.0 : 0.0; last = b ? x[i] : last; }
    for (int i = n - 1; i >= 0; --i) first = y[i] == top ? x[i] : first;
    if (k == 2) sx_check(near(v, first, 1e-9), "smallest sample with maximum membership");
    if (k == 3) sx_check(near(v, last, 1e-9), "largest sample with maximum membership");
    if (k == 4) sx_check(near(v * cnt, tot, 1e-8), "mean of the samples with maximum membership");
}
CASE(samples, "real", 26, 34, "cost=5 time=120") {
    static const int tk[] = {0, 1, 2, 3, 4, 0, 1, 2, 3, 4, 0, 1, 2, 3, 4, 0, 1, 2, 3, 4, 0, 2, 3, 4, 2, 3, 0, 1, 2, 3, 4, 2, 3, 1};
    static const int tn[] = {1, 1, 1, 1, 1, 2, 2, 2, 2, 2, 3, 3, 3, 3, 3, 4, 4, 4, 4, 4, 5, 5, 5, 5, 6, 6, 6, 5, 7, 7, 6, 8, 8, 6};
    int k = tk[SUB], n = tn[SUB];
    Sampled t; t.n = n; t.lo = sx_real("lo", -8, 8); t.hi = sx_real("hi", -8, 8); sx_assume(t.hi >= t.lo + W);
    scalar sum = 0; char nm[8];
    for (int i = 0; i < n; ++i) { std::snprintf(nm, sizeof nm, "y%d", i); t.y[i] = sx_real(nm, 0, 1); sum += t.y[i]; }
    if (k < 2) sx_assume(sum >= 0.01);
    std::unique_ptr<Defuzzifier> d(make(k, n));
    sx_check(d->className() == names[k], "named defuzzifier");
    scalar v = d->defuzzify(&t, t.lo, t.hi);
    judge(k, n, t.lo, t.hi, t.y, v);
    if (k != 0 || n <= 3) sx_check(between(v, t.lo - 1e-9, t.hi + 1e-9), "inside the range");
    std::unique_ptr<Defuzzifier> c(d->clone());
    sx_check(near(c->defuzzify(&t, t.lo, t.hi), v, 1e-9), "clone gives the same value");
}
CASE(fixed_range, "real", 5, 5, "cost=5 time=120") { // more samples over a concrete range
    static const int quick[] = {7, 4, 6, 6, 5}, deep[] = {9, 6, 9, 9, 7};
    int k = SUB, n = THOROUGH ? deep[SUB] : quick[SUB];
    Sampled t; t.n = n; t.lo = -1; t.hi = 2.5;
    scalar sum = 0; char nm[8];
    for (int i = 0; i < n; ++i) { std::snprintf(nm, sizeof nm, "y%d", i); t.y[i] = sx_real(nm, 0, 1); sum += t.y[i]; }
    if (k < 2) sx_assume(sum >= 0.01);
    std::unique_ptr<Defuzzifier> d(make(k, n));
    judge(k, n, t.lo, t.hi, t.y, d->defuzzify(&t, t.lo, t.hi));
}
CASE(default_resolution, "real", 5, 5, "cost=3") {
    std::unique_ptr<Defuzzifier> d(FactoryManager::instance()->defuzzifier()->constructObject(names[SUB]));
    sx_check(IntegralDefuzzifier::defaultResolution() == 1000 && dynamic_cast<IntegralDefuzzifier*>(d.get())->getResolution() == 1000, "default resolution");
    std::unique_ptr<Defuzzifier> q(make(SUB, 100));
    Ramp r("r", 0, 1); scalar a = SUB == 1 ? 0.75 : sx_real("a", 0.125, 1.0); // a scaled ramp over [0,1] at 100 samples
    r.setHeight(a);
    scalar e = SUB == 0 ? 0.66665 : SUB == 1 ? 0.705 : 0.995;
    sx_check(near(q->defuzzify(&r, 0, 1), e, 1e-6), "hundred samples of a ramp");
}
// the samples are memberships of the aggregated output
CASE(aggregated, "real", 10, 10, "cost=6 time=120") {
    int k = SUB % 5, n = SUB / 5 ? 4 : 3;
    Aggregated g("o", -1, 2, new Maximum);
    Minimum mini; Ramp up("up", -1, 2); Triangle tri("tri", -1, 0, 2);
    scalar d1 = sx_real("d1", 0.125, 1), d2 = sx_real("d2", 0, 1);
    g.addTerm(&up, d1, &mini); g.addTerm(&tri, d2, &mini);
    std::unique_ptr<Defuzzifier> d(make(k, n));
    scalar v = d->defuzzify(&g, -1, 2), y[4];
    for (int i = 0; i < n; ++i) {
        scalar x = -1 + (i + 0.5) * 3.0 / n, mu = (x + 1) / 3, mt = x < 0 ? x + 1 : (2 - x) / 2;
        y[i] = mx(mn(mu, d1), mn(mt, d2));
    }
    if (k >= 2) for (int i = 0; i < n; ++i) for (int j = 0; j < i; ++j) sx_assume((y[i] == y[j]) | (std::fabs(y[i] - y[j]) > 1e-9));
    for (int i = 0; i < n; ++i) { sx_assume((d1 == d2) | (std::fabs(d1 - d2) > 1e-6)); }
    if (k >= 2) { // equal memberships of different terms may differ in rounding: only clipped (equal degree) ties are claimed
        for (int i = 0; i < n; ++i) { scalar x = -1 + (i + 0.5) * 3.0 / n, mu = (x + 1) / 3, mt = x < 0 ? x + 1 : (2 - x) / 2; sx_assume((std::fabs(mu - d1) > 1e-6) & (std::fabs(mt - d2) > 1e-6) & (std::fabs(mu - d2) > 1e-6) & (std::fabs(mt - d1) > 1e-6)); }
    }
    judge(k, n, -1, 2, y, v);
}
CASE(bad_range, "real", 5, 5, "") {
    std::unique_ptr<Defuzzifier> d(make(SUB, 4));
    Ramp r("r", 0, 1); scalar lo = sx_real("lo", -8, 8);
    scalar a = d->defuzzify(&r, lo, fl::inf), b = d->defuzzify(&r, -fl::inf, lo), c = d->defuzzify(&r, fl::nan, lo), e = d->defuzzify(&r, lo, fl::nan), f = d->defuzzify(&r, -fl::inf, fl::inf);
    sx_check((a != a) & (b != b) & (c != c) & (e != e) & (f != f), "NaN when the range is not finite");
    if (SUB < 2) { Aggregated none("o", 0, 1, new Maximum); scalar v = d->defuzzify(&none, -0.5, 1); sx_check(v != v, "NaN when nothing is activated"); }
}
