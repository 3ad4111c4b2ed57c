// Benchmarks: every expected row is run through the engine from a fresh start; differences are counted as errors exactly as documented; results report them.
// BOUNDS: error counts of 1-2 rows with 1-2 outputs and every IEEE double as expected and obtained values and tolerance; squared errors of up to 3 rows with values in [-100,100]; rows of every length 0-4
// BOUNDS: grids of 1-27 values for 1-3 inputs; 1-4 lines of text of 8 kinds with any values; runs of up to 3 rows over 6 kinds of engines and one that locks its previous value; times in [0,1e6] in all six units; tables of up to 3 entries with any 1-2 bytes
// ASSUME: measured times are not judged; the normalized error (nrmse) is not specified anywhere and is not judged
#include "compare.h"
#include "engines.h"
using namespace fl;
typedef std::vector<std::vector<scalar> > Rows;
static Engine* make(int in, int out) { static const char* const ni[] = {"a", "b", "c"}; static const char* const no[] = {"o", "p", "q"}; Engine* e = new Engine("e"); for (int i = 0; i < in; ++i) e->addInputVariable(new InputVariable(ni[i], 0, 1)); for (int i = 0; i < out; ++i) e->addOutputVariable(new OutputVariable(no[i], 0, i + 1.0)); return e; }
static scalar val(const char* p, int i, int j) { char nm[16]; std::snprintf(nm, sizeof nm, "%s%d%d", p, i, j); return sx_is_real_mode() ? sx_real(nm, -100, 100) : sx_fp(nm); }
CASE(counts, "fp", 3, 4, "cost=5 time=200") { // SUB: shape
    int rows = SUB == 0 ? 1 : SUB == 1 ? 1 : 2, outs = SUB == 0 ? 1 : SUB == 1 ? 2 : SUB == 2 ? 1 : 2; std::unique_ptr<Engine> e(make(1, outs)); scalar tol = sx_fp("tol"); Benchmark b("b", e.get(), tol); Rows x, o; int nf[2] = {0, 0}, ac[2] = {0, 0};
    for (int i = 0; i < rows; ++i) { x.push_back(std::vector<scalar>(1, 7)); o.push_back(std::vector<scalar>(1, i)); for (int j = 0; j < outs; ++j) { scalar u = val("e", i, j), v = val("o", i, j), d = u - v; x[i].push_back(u); o[i].push_back(v);
        bool eq = (u == v) | (std::fabs(d) < tol) | ((u != u) & (v != v)), fin = std::fabs(d) <= 1.7976931348623157e308; nf[j] += !eq & !fin; ac[j] += !eq & fin; } }
    b.setExpected(x); b.setObtained(o); sx_check(b.canComputeErrors(), "errors can be computed"); int n = 0, m = 0; for (int j = 0; j < outs; ++j) { const OutputVariable* y = e->getOutputVariable(j); n += nf[j]; m += ac[j]; sx_check((b.nonFiniteErrors(y) == nf[j]) & (b.accuracyErrors(y) == ac[j]) & (b.allErrors(y) == nf[j] + ac[j]), "errors of each output"); if (outs == 1) sx_check((b.numberOfErrors(Benchmark::NonFinite, y) == nf[j]) & (b.numberOfErrors(Benchmark::Accuracy, y) == ac[j]) & (b.numberOfErrors(Benchmark::All, y) == nf[j] + ac[j]), "by kind"); }
    sx_check((b.nonFiniteErrors() == n) & (b.accuracyErrors() == m) & (b.allErrors() == n + m), "errors of all outputs"); OutputVariable other; sx_check(b.allErrors(&other) == 0, "no errors of another variable");
}
CASE(squares, "real", 4, 4, "cost=4 time=120") {
    int rows = SUB % 2 + 1, outs = SUB / 2 + 1; std::unique_ptr<Engine> e(make(SUB % 2, outs)); scalar tol = sx_real("tol", 0, 2); Benchmark b("b", e.get()); b.setTolerance(tol); Rows x, o; scalar s[3] = {0, 0, 0}; int n[3] = {0, 0, 0}; int in = SUB % 2; bool special = rows * outs < 3;
    for (int i = 0; i < rows; ++i) { x.push_back(std::vector<scalar>(in, 7)); o.push_back(std::vector<scalar>(in, 9)); for (int j = 0; j < outs; ++j) { scalar u = val("e", i, j), v = val("o", i, j); if (special && i == 0 && j == 0) { int k = sx_choice("k", 5); if (k == 1) u = fl::nan; if (k == 2) v = fl::inf; if (k == 3) u = v = fl::nan; if (k == 4) u = v = -fl::inf; } scalar d = u - v; x[i].push_back(u); o[i].push_back(v); if (d == d && std::fabs(d) < 1e9 && !(std::fabs(d) < tol) && d != 0) { s[j] += d * d; s[2] += d * d; ++n[j]; ++n[2]; } } }
    b.setExpected(x); b.setObtained(o); for (int j = 0; j < outs; ++j) sx_check(near(b.meanSquaredError(e->getOutputVariable(j)), n[j] ? s[j] / n[j] : 0, 1e-6), "mean of the squared accuracy errors of an output"); sx_check(near(b.meanSquaredError(), n[2] ? s[2] / n[2] : 0, 1e-6), "mean of all squared accuracy errors");
}
CASE(computable, "real", 1, 1, "cost=2 time=60") { // when errors can be computed
    int in = sx_choice("in", 2), out = sx_choice("out", 3), er = sx_choice("er", 3), orr = sx_choice("or", 3), ew = sx_choice("ew", 5), ow = sx_choice("ow", 5), none = sx_choice("none", 2); std::unique_ptr<Engine> e(make(in, out)); scalar v = sx_real("v", -1, 1); Benchmark b("b", none ? fl::null : e.get()); b.setExpected(Rows(er, std::vector<scalar>(ew, v))); b.setObtained(Rows(orr, std::vector<scalar>(ow, v)));
    bool can = !none && er > 0 && er == orr && ew == ow && ew == in + out; sx_check(b.canComputeErrors() == can, "only for an engine with expected and obtained rows of all its variables"); sx_check(b.allErrors() == (can ? 0 : -1) && b.nonFiniteErrors() == (can ? 0 : -1) && b.accuracyErrors() == (can ? 0 : -1), "no errors are counted otherwise"); scalar m = b.meanSquaredError(); sx_check(can ? m == 0 : m != m, "nor squared");
    b.setTimes(std::vector<scalar>(2, v)); b.reset(); sx_check(b.getObtained().empty() && b.getTimes().empty() && b.getExpected().size() == (size_t)er && !b.canComputeErrors(), "reset forgets what was obtained, not what is expected");
}
static int root(int values, int n) { int k = 1; for (;; ++k) { long q = 1; for (int i = 0; i < n; ++i) q *= k + 1; if (q > values) return k; } }
CASE(grid, "real", 6, 6, "cost=4 time=100") {
    int n = SUB % 3 + 1; bool all = SUB >= 3; std::unique_ptr<Engine> e(make(n, 1)); char nm[8]; for (int i = 0; i < n; ++i) { std::snprintf(nm, sizeof nm, "lo%d", i); scalar lo = sx_real(nm, -50, 50); std::snprintf(nm, sizeof nm, "hi%d", i); e->getInputVariable(i)->setRange(lo, sx_real(nm, -50, 50)); }
    static const int sizes[] = {1, 2, 3, 4, 5, 8, 9, 10, 16, 25, 26, 27, 64, 125}; int values = all ? sizes[sx_choice("values", n == 1 ? 6 : 14)] : 1 + sx_choice("values", n == 1 ? 6 : n == 2 ? 4 : 3); Benchmark b("b", e.get()); b.setExpected(Rows(3)); b.prepare(values, all ? FldExporter::AllVariables : FldExporter::EachVariable);
    int k = all ? root(values, n) : values, total = 1; for (int i = 0; i < n; ++i) total *= k; const Rows& r = b.getExpected(); sx_check((int)r.size() == total, "one row for every combination"); if ((int)r.size() != total) return;
    bool ok = true; for (int t = 0; t < total; ++t) { int q = t; ok = ok & (r[t].size() == (size_t)n); for (int i = n; i-- > 0; q /= k) { const InputVariable* a = e->getInputVariable(i); scalar f = k > 1 ? (scalar)(q % k) / (k - 1) : 0; ok = ok & near(r[t][i], a->getMinimum() + f * (a->getMaximum() - a->getMinimum()), 1e-9); } } sx_check(ok, "rows are the grid in order");
    Benchmark none("n"); bool refused = false; try { none.prepare(values, FldExporter::AllVariables); } catch (fl::Exception&) { refused = true; } sx_check(refused, "an engine is needed");
}
CASE(reader, "real", 3, 4, "cost=3 time=100") { // SUB + 1 lines
    Benchmark b("b"); S t; char nm[8]; Rows want; bool bad = false; int lines = SUB + 1, limit = sx_choice("limit", 4) - 1;
    for (int i = 0; i < lines; ++i) { std::snprintf(nm, sizeof nm, "k%d", i); int k = sx_choice(nm, 7); std::snprintf(nm, sizeof nm, "x%d", i); scalar x = sx_real(nm, 1, 50); std::snprintf(nm, sizeof nm, "y%d", i); scalar y = sx_real(nm, -50, -1); S a = Op::str(x), c = Op::str(y); std::vector<scalar> row; row.push_back(x); row.push_back(y); if (k == 3) row.push_back(9); if (k == 6) { row.clear(); row.push_back(fl::nan); row.push_back(-fl::inf); }
        t += (k == 0 ? a + " " + c : k == 1 ? "# " + a : k == 2 ? S(" ") : k == 3 ? "  " + a + "   " + c + " 9 " : k == 4 ? "a o" : k == 5 ? a + " x" : S("nan -inf")) + "\n"; if (limit >= 0 && i >= limit) continue; if (k == 4 || k == 5) { if (i > 0) bad = true; continue; } if (k == 1 || k == 2) continue; want.push_back(row); }
    std::istringstream is(t); bool refused = false; try { b.prepare(is, limit); } catch (std::exception&) { refused = true; } sx_check(refused == bad, "text that is not numeric is refused, a header aside"); if (refused || bad) return;
    const Rows& r = b.getExpected(); bool ok = r.size() == want.size(); for (size_t i = 0; i < want.size() && ok; ++i) { ok = r[i].size() == want[i].size(); for (size_t j = 0; j < want[i].size() && ok; ++j) ok = cmp::eq(r[i][j], want[i][j]); } sx_check(ok, "the values of the lines asked for, in order");
}
static void setAll(Engine* e, const std::vector<scalar>& r) { for (size_t i = 0; i < e->numberOfInputVariables(); ++i) e->getInputVariable(i)->setValue(r[i]); }
static bool ran(const Benchmark& b, Engine* f, const Rows& x) { // f is an engine of the same kind, in any state
    const Rows& o = b.getObtained(); size_t ni = f->numberOfInputVariables(), no = f->numberOfOutputVariables(); if (o.size() != x.size()) return false; f->restart(); bool ok = true;
    for (size_t i = 0; i < x.size(); ++i) { if (o[i].size() != ni + no) return false; setAll(f, x[i]); f->process(); for (size_t j = 0; j < ni; ++j) ok = ok & same(o[i][j], x[i][j]); for (size_t j = 0; j < no; ++j) ok = ok & (same(o[i][ni + j], f->getOutputVariable(j)->getValue()) | near(o[i][ni + j], f->getOutputVariable(j)->getValue(), 1e-9)); } return ok;
}
CASE(run, "real", 6, 6, "cost=4 time=100") { // SUB: kind of engine
    std::unique_ptr<Engine> e(sx::build(SUB)), f(sx::build(SUB)); Rows x; int n = 1 + sx_choice("n", 2), times = sx_choice("times", 3); for (int i = 0; i < n; ++i) { std::vector<scalar> r; scalar a = i ? 0.25 : sx_real("a", -1, 1), c = i ? -0.75 : 0.25; r.push_back(a); r.push_back(c); if (i == 0) r.push_back(3); x.push_back(r); }
    sx::set(e.get(), 0.5, 0.5); e->process(); Benchmark b("b", e.get()); b.setExpected(x); std::vector<scalar> t = b.run(times); sx_check(t.size() == (size_t)times && b.getTimes().size() == (size_t)times, "one time for every run"); if (times) sx_check(ran(b, f.get(), x), "each row is the inputs and the outputs of the engine for them, from a fresh start"); else sx_check(b.getObtained().empty(), "nothing is run");
    b.runOnce(); sx_check(b.getTimes().size() == times + 1u && ran(b, f.get(), x), "running again gives the same"); x = b.getObtained(); b.setExpected(x); b.run(1); sx_check(b.canComputeErrors() && b.allErrors() == 0 && b.meanSquaredError() == 0, "the values obtained are without error");
}
CASE(run_history, "real", 1, 1, "cost=4 time=100") { // rows are run in order on one engine: values are kept from row to row, not from run to run
    std::unique_ptr<Engine> e(sx::build(sx::SUGENO)), f; e->getOutputVariable(0)->setLockPreviousValue(true); e->getOutputVariable(0)->setDefaultValue(sx_real("d", -5, 5)); f.reset(e->clone()); Rows x; for (int i = 0; i < 3; ++i) { char nm[8]; std::snprintf(nm, sizeof nm, "k%d", i); int k = sx_choice(nm, 2); std::vector<scalar> r; r.push_back(k ? fl::nan : i == 0 ? sx_real("a", -1, 1) : 0.5); r.push_back(k ? fl::nan : -0.5); x.push_back(r); }
    Benchmark b("b", e.get()); b.setExpected(x); b.run(1); sx_check(ran(b, f.get(), x), "first run"); b.run(2); sx_check(ran(b, f.get(), x), "every run starts afresh");
}
CASE(run_refused, "real", 1, 1, "cost=1 time=30") {
    std::unique_ptr<Engine> e(sx::build(sx::SUGENO)); scalar a = sx_real("a", -1, 1); int w = sx_choice("w", 4); Rows x(2, std::vector<scalar>(2, a)); x[1].resize(w); Benchmark b("b", e.get()); b.setExpected(x); bool refused = false; try { b.runOnce(); } catch (fl::Exception&) { refused = true; } sx_check(refused == (w < 2), "rows with fewer values than inputs are refused"); b.setEngine(fl::null); refused = false; try { b.run(1); } catch (fl::Exception&) { refused = true; } sx_check(refused, "an engine is needed"); refused = false; try { b.results(); } catch (fl::Exception&) { refused = true; } sx_check(refused, "also for results"); b.setExpected(Rows()); b.setEngine(e.get()); b.run(1); sx_check(b.getObtained().empty(), "nothing expected, nothing obtained");
}
// ---- results
typedef std::vector<Benchmark::Result> Results;
static S get(const Results& r, const S& k) { S v = "?"; int n = 0; for (size_t i = 0; i < r.size(); ++i) if (r[i].first == k) { v = r[i].second; ++n; } return n == 1 ? v : S("?"); }
static bool isNum(const S& t, scalar v, scalar tol) { bool ok = false; scalar r = Op::toScalar(t, fl::nan, &ok); return ok & near(r, v, tol); }
static const scalar seconds[] = {1e-9, 1e-6, 1e-3, 1, 60, 3600}; static const char* const units[] = {"nanoseconds", "microseconds", "milliseconds", "seconds", "minutes", "hours"};
CASE(convert, "real", 6, 6, "cost=1 time=30") { int to = sx_choice("to", 6); scalar x = sx_real("x", 0, 1000), r = Benchmark::convert(x, (Benchmark::TimeUnit)SUB, (Benchmark::TimeUnit)to), w = x * (seconds[SUB] / seconds[to]); sx_check(std::fabs(r - w) <= 1e-9 * w + 1e-30, "times convert between units"); sx_check(Benchmark::stringOf((Benchmark::TimeUnit)to) == units[to], "units have their names"); sx_check(near(Benchmark::factorOf((Benchmark::TimeUnit)to) * seconds[to], 1e-9, 1e-18), "factors from nanoseconds"); }
CASE(times, "real", 6, 6, "cost=3 time=60") { // SUB: unit
    std::unique_ptr<Engine> e(make(1, 1)); Benchmark b("b", e.get()); int n = 1 + sx_choice("n", 2); scalar big = SUB == 0 ? 1 : 1e-9 * 50 / (1e-9 * 1e-9) * seconds[SUB] * 1e-9; std::vector<scalar> t; for (int i = 0; i < n; ++i) t.push_back(sx_real(i ? "t1" : "t0", 10 * big, 20 * big)); b.setTimes(t); bool inc = sx_choice("include", 2); Results r = b.results((Benchmark::TimeUnit)SUB, inc); scalar f = 1e-9 / seconds[SUB], s = n == 2 ? t[0] + t[1] : t[0], tol = SUB == 0 ? 0.501 : 0.00051;
    sx_check(get(r, "units") == units[SUB], "unit"); sx_check(isNum(get(r, "sum(t)"), s * f, tol), "sum of the times in the unit"); sx_check(isNum(get(r, "mean(t)"), s / n * f, 0.00051), "mean of the times in the unit");
    for (int i = 0; i < n; ++i) { S k = i ? "t2" : "t1"; if (inc) sx_check(isNum(get(r, k), t[i] * f, tol), "every time in the unit"); else sx_check(get(r, k) == "?", "times are left out"); } sx_check(get(r, "runs") == (n == 2 ? "2" : "1"), "number of runs");
}
CASE(spread, "real", 1, 1, "cost=2 time=60") { std::unique_ptr<Engine> e(make(1, 1)); Benchmark b("b", e.get()); scalar x = sx_real("t0", 10, 20), d = sx_real("d", 1, 5); std::vector<scalar> t; t.push_back(x); t.push_back(x + 2 * d); t.push_back(x + d); b.setTimes(t); sx_check(isNum(get(b.results(), "sd(t)"), d, 0.001), "standard deviation of the times"); }
CASE(report, "real", 2, 2, "cost=3 time=60") { // SUB: all outputs or one of them
    std::unique_ptr<Engine> e(make(2, 2)); e->addRuleBlock(new RuleBlock); e->getRuleBlock(0)->addRule(new Rule); e->getRuleBlock(0)->addRule(new Rule); e->addRuleBlock(new RuleBlock); e->getRuleBlock(1)->addRule(new Rule); scalar d = sx_real("d", 1, 5), g = sx_real("g", 1, 4); e->getOutputVariable(1)->setRange(0, g); bool fin = sx_choice("finite", 2); int which = SUB ? sx_choice("which", 2) : -1; S nm(1, (char)sx_byte("name")); Benchmark b(nm, e.get(), 0.5);
    Rows x(2, std::vector<scalar>(4, 1)), o = x; o[0][2] = 1 + d; o[1][3] = fin ? 1 - 2 * d : fl::nan; b.setExpected(x); b.setObtained(o); Results r = SUB ? b.results(e->getOutputVariable(which)) : b.results(); int acc = SUB ? (which == 0 ? 1 : fin) : 1 + fin, nf = SUB ? (which == 1 && !fin) : !fin;
    sx_check(get(r, "name") == nm && get(r, "inputs") == "2" && get(r, "outputs") == "2" && get(r, "ruleBlocks") == "2" && get(r, "rules") == "3" && get(r, "runs") == "0" && get(r, "evaluations") == "2", "what was run"); sx_check(get(r, "outputVariable") == (SUB ? (which ? "p" : "o") : "o,p"), "the outputs concerned");
    sx_check(Op::toScalar(get(r, "errors")) == acc + nf && Op::toScalar(get(r, "nfErrors")) == nf && Op::toScalar(get(r, "accErrors")) == acc, "the errors"); scalar mean = SUB ? (which ? g : 1) : (1 + g) / 2; sx_check(isNum(get(r, "range"), mean, 0.00051), "mean range of the outputs"); sx_check(Op::toScalar(get(r, "tolerance")) == 0.5, "tolerance");
    b.setObtained(Rows()); Results q = b.results(); sx_check(get(q, "errors") == "?" && get(q, "rmse") == "?" && get(q, "name") == nm && get(q, "evaluations") == "2", "no errors without what was obtained");
    std::vector<S> h = b.header(2, true), h0 = b.header(2, false); b.setObtained(o); std::vector<scalar> two(2, 1); b.setTimes(two); r = b.results(); bool ok = h.size() == r.size(); for (size_t i = 0; i < h.size() && ok; ++i) ok = h[i] == r[i].first; b.setObtained(Rows()); q = b.results(); ok = ok && h0.size() == q.size(); for (size_t i = 0; i < h0.size() && ok; ++i) ok = h0[i] == q[i].first; sx_check(ok, "the header names the results in order");
}
CASE(rms, "real", 1, 1, "cost=3 time=60") { std::unique_ptr<Engine> e(make(1, 1)); scalar d = sx_real("d", 1, 9); Benchmark b("b", e.get()); Rows x(1, std::vector<scalar>(2, 1)), o = x; o[0][1] = 1 + d; b.setExpected(x); b.setObtained(o); sx_check(isNum(get(b.results(), "rmse"), d, 1e-5), "root of the mean squared error"); }
CASE(table, "real", 4, 4, "cost=2 time=60") { // SUB: number of entries
    Results r; std::vector<S> k, v; char nm[8]; for (int i = 0; i < SUB; ++i) { std::snprintf(nm, sizeof nm, "k%d", i); S a(1 + i % 2, (char)sx_byte(nm)); std::snprintf(nm, sizeof nm, "v%d", i); S c(i != 1, (char)sx_byte(nm)); r.push_back(Benchmark::Result(a, c)); k.push_back(a); v.push_back(c); } S d(1, (char)sx_byte("d")); if (sx_choice("two", 2)) d += ","; int shape = sx_choice("shape", 2), c = 1 + sx_choice("contents", 3); Benchmark b; S t = b.format(r, shape ? Benchmark::Vertical : Benchmark::Horizontal, (Benchmark::TableContents)c, d), w;
    if (shape) for (int i = 0; i < SUB; ++i) w += (i ? "\n" : S()) + (c & 1 ? k[i] : S()) + (c == 3 ? d : S()) + (c & 2 ? v[i] : S()); else { for (int i = 0; i < SUB && (c & 1); ++i) w += (i ? d : S()) + k[i]; if (c == 3) w += "\n"; for (int i = 0; i < SUB && (c & 2); ++i) w += (i ? d : S()) + v[i]; } sx_check(t == w, "one line per entry, or one for all names and one for all values");
}
CASE(accessors, "real", 1, 1, "cost=1 time=30") { std::unique_ptr<Engine> e(make(1, 1)); scalar t = sx_real("t", 0, 1), x = sx_real("x", -1, 1); Benchmark b; sx_check(b.getEngine() == 0 && b.getName().empty() && b.getTolerance() == fl::fuzzylite::macheps(), "defaults"); b.setName("n"); b.setEngine(e.get()); b.setTolerance(t); b.setTimes(std::vector<scalar>(1, x)); Rows r(1, std::vector<scalar>(1, x)), q(2, std::vector<scalar>(2, t)); b.setExpected(r); b.setObtained(q); Benchmark c(b); sx_check(c.getName() == "n" && c.getEngine() == e.get() && c.getExpected().size() == 1 && c.getObtained().size() == 2, "copied"); sx_check((c.getTolerance() == t) & (c.getTimes()[0] == x) & (c.getExpected()[0][0] == x) & (c.getObtained()[1][1] == t), "as set"); }
