// Datasets (FLD): the rows are exactly the requested grid of inputs, in order, with the outputs of the engine for each; given inputs are taken row by row.
// BOUNDS: 1-3 inputs with any ranges in [-50,-1] or [1,50] (one input: in [-50,50]), one output linear in all inputs and one without rules; 1-30 values per grid, every scope; any subset of inputs active; separators and the three flags in every combination; the number of rows for 40 grid sizes around exact roots, 1-4 inputs
// BOUNDS: reading 3 rows whose values are any numbers, NaN or infinities
// BOUNDS: reading 1-4 lines (header, comment, blank, values, too few values, too many, not numeric) with any values in [-50,-1] or [1,50]; counters of 1-3 digits in [-1000,1000]
// ASSUME: a grid of n values for all of k variables has as many values for each as the k-th root of n, rounded down
#include "compare.h"
using namespace fl;
// values are at least 1 from zero where many of them are printed (a value below the last decimal is printed as zero)
static scalar away(const char* nm, int sign) { return sign == 0 ? sx_real(nm, -50, 50) : sign > 0 ? sx_real(nm, 1, 50) : sx_real(nm, -50, -1); }
static Engine* make(int n, bool ranges, int sign = 0) {
    Engine* e = new Engine("e"); static const char* const names[] = {"a", "b", "c", "d"}; char nm[8]; S rule;
    for (int i = 0; i < n; ++i) { InputVariable* v = new InputVariable(names[i], 0, 1); if (ranges) { std::snprintf(nm, sizeof nm, "lo%d", i); scalar lo = away(nm, sign); std::snprintf(nm, sizeof nm, "hi%d", i); v->setRange(lo, away(nm, sign)); } v->addTerm(new Ramp("t", 0, 1)); e->addInputVariable(v); }
    OutputVariable *o = new OutputVariable("o", -fl::inf, fl::inf), *p = new OutputVariable("p", 0, 1); std::vector<scalar> c; for (int i = 0; i < n; ++i) c.push_back(i + 1.0); c.push_back(1000); o->addTerm(new Linear("l", c, e)); o->setDefuzzifier(new WeightedAverage); p->setDefuzzifier(new WeightedAverage); p->setDefaultValue(ranges ? sx_real("default", 1, 5) : 0.25); e->addOutputVariable(o); e->addOutputVariable(p);
    RuleBlock* b = new RuleBlock("r"); b->setActivation(new General); b->setImplication(new AlgebraicProduct); if (n) b->addRule(Rule::parse("if a is any then o is l", e)); e->addRuleBlock(b); return e;
}
static scalar expected(const scalar* x, int n) { scalar s = 1000; for (int i = 0; i < n; ++i) s += (i + 1.0) * x[i]; return s; }
static bool num(const S& t, scalar v) { bool ok = false; scalar r = Op::toScalar(t, fl::nan, &ok); return ok & cmp::eq(r, v); }
// the lines of a text
static std::vector<S> rows(const S& t) { std::vector<S> l = Op::split(t, "\n", false); if (!l.empty() && l.back().empty()) l.pop_back(); return l; }
static bool row(const S& line, const S& sep, const scalar* x, int n, bool in, bool out, scalar p, scalar tol = 0) {
    std::vector<S> c = Op::split(line, sep); size_t at = 0; if (c.size() != (in ? n : 0) + (out ? 2u : 0u)) return false; bool ok = true;
    if (in) for (int i = 0; i < n; ++i) ok = ok & num(c[at++], x[i]); if (out) { ok = ok & (num(c[at], expected(x, n)) | near(Op::toScalar(c[at]), expected(x, n), tol)) & num(c[at + 1], p); } return ok;
}
static int root(int values, int n) { int k = 1; for (;; ++k) { long q = 1; for (int i = 0; i < n; ++i) q *= k + 1; if (q > values) return k; } }
CASE(grid, "real", 6, 6, "cost=4 time=100") { // SUB: inputs, scope
    int n = SUB % 3 + 1; bool all = SUB >= 3; int values = 1 + sx_choice("values", all ? 30 : n == 1 ? 6 : n == 2 ? 4 : 3); int sign = sx_choice("sign", n == 1 && values < 4 ? 3 : 2) * 2 - 1; if (sign > 1) sign = 0; std::unique_ptr<Engine> e(make(n, true, sign)); int sep = sx_choice("separator", 2);
    FldExporter x(sep ? ", " : " "); S t = x.toString(e.get(), values, all ? FldExporter::AllVariables : FldExporter::EachVariable); std::vector<S> l = rows(t); S s = sep ? ", " : " ", h; int k = all ? root(values, n) : values, total = 1; for (int i = 0; i < n; ++i) { total *= k; h += e->getInputVariable(i)->getName() + s; }
    sx_check((int)l.size() == total + 1 && l[0] == h + "o" + s + "p", "a header and one row for every combination"); if ((int)l.size() != total + 1) return;
    bool ok = true; for (int r = 0; r < total; ++r) { scalar v[4]; int q = r; for (int i = n; i-- > 0; q /= k) { const InputVariable* a = e->getInputVariable(i); scalar f = k > 1 ? (scalar)(q % k) / (k - 1) : 0; v[i] = a->getMinimum() + f * (a->getMaximum() - a->getMinimum()); } ok = ok & row(l[r + 1], s, v, n, true, true, e->getOutputVariable(1)->getDefaultValue()); }
    sx_check(ok, "rows are the grid in order, each with the outputs of the engine");
}
CASE(roots, "real", 4, 4, "cost=2 time=60") { // number of rows around exact roots
    static const int q[4][12] = {{1, 2, 3, 5, 7, 64, 100, 125, 8, 9, 10, 27}, {1, 3, 4, 5, 8, 9, 16, 24, 25, 36, 49, 100}, {1, 7, 8, 26, 27, 28, 63, 64, 124, 125, 216, 343}, {1, 15, 16, 17, 80, 81, 82, 255, 256, 257, 625, 100}};
    int n = SUB + 1, values = q[SUB][sx_choice("values", 12)]; std::unique_ptr<Engine> e(make(n, false)); e->getInputVariable(0)->setMaximum(sx_real("max", 1, 2)); FldExporter x; x.setExportHeader(false); x.setExportInputValues(false); int k = root(values, n), total = 1; for (int i = 0; i < n; ++i) total *= k;
    size_t got = rows(x.toString(e.get(), values)).size(); sx_check((int)got == total, "as many values for each variable as the root of the number of values");
}
CASE(none, "real", 1, 1, "cost=1 time=30") { // an engine without inputs, and fewer values than one
    std::unique_ptr<Engine> e(make(0, false)); FldExporter x; x.setExportHeader(false); int values = sx_choice("values", 3); sx_check(rows(x.toString(e.get(), values, sx_choice("each", 2) ? FldExporter::EachVariable : FldExporter::AllVariables)).size() == 1, "one row for no inputs");
    std::unique_ptr<Engine> f(make(2, true)); scalar v[] = {f->getInputVariable(0)->getMinimum(), f->getInputVariable(1)->getMinimum()}; std::vector<S> l = rows(x.toString(f.get(), values < 2 ? values : -1)); sx_check(l.size() == 1 && row(l[0], " ", v, 2, true, true, f->getOutputVariable(1)->getDefaultValue()), "at least the minimum of every variable");
}
CASE(active, "real", 2, 2, "cost=3 time=60") {
    int n = SUB + 2, mask = sx_choice("mask", 1 << n), k = 2 + sx_choice("k", 2); int sign = sx_choice("sign", 2) * 2 - 1; std::unique_ptr<Engine> e(make(n, true, sign)); std::vector<InputVariable*> act; scalar fixed[4]; char nm[8]; bool in = sx_choice("in", 2), out = sx_choice("out", 2), head = sx_choice("head", 2); if (!in && !out) in = true;
    for (int i = 0; i < n; ++i) { std::snprintf(nm, sizeof nm, "v%d", i); fixed[i] = away(nm, sign); e->getInputVariable(i)->setValue(fixed[i]); act.push_back(mask >> i & 1 ? e->getInputVariable(i) : fl::null); }
    FldExporter x; x.setExportHeader(head); x.setExportInputValues(in); x.setExportOutputValues(out); std::vector<S> l = rows(x.toString(e.get(), k, FldExporter::EachVariable, act)); int total = 1; for (int i = 0; i < n; ++i) if (mask >> i & 1) total *= k;
    S h; if (in) for (int i = 0; i < n; ++i) h += S(i ? " " : "") + e->getInputVariable(i)->getName(); if (out) h += S(in ? " " : "") + "o p"; int at = head ? 1 : 0; sx_check((int)l.size() == total + at && (!head || l[0] == h), "one row for every combination of the active variables, and the header if asked for"); if ((int)l.size() != total + at) return;
    bool ok = true; for (int r = 0; r < total; ++r) { scalar v[4]; int q = r; for (int i = n; i-- > 0;) { const InputVariable* a = e->getInputVariable(i); if (mask >> i & 1) { v[i] = a->getMinimum() + (scalar)(q % k) / (k - 1) * (a->getMaximum() - a->getMinimum()); q /= k; } else v[i] = fixed[i]; } ok = ok & row(l[r + at], " ", v, n, in, out, e->getOutputVariable(1)->getDefaultValue()); }
    sx_check(ok, "active variables go through their range, others keep their value");
    act.pop_back(); bool refused = false; try { x.toString(e.get(), k, FldExporter::EachVariable, act); } catch (fl::Exception&) { refused = true; } sx_check(refused, "another number of active variables is refused");
}
CASE(reader, "real", 4, 4, "cost=3 time=100") { // SUB + 1 lines
    std::unique_ptr<Engine> e(make(2, true)); S t, want; char nm[8]; std::vector<int> kind; scalar v[4][2]; bool bad = false; int lines = SUB + 1;
    for (int i = 0; i < lines; ++i) { std::snprintf(nm, sizeof nm, "k%d", i); int k = sx_choice(nm, i == 0 ? 8 : lines > 3 ? 6 : 7); std::snprintf(nm, sizeof nm, "x%d", i); v[i][0] = away(nm, 1 - i % 2 * 2); std::snprintf(nm, sizeof nm, "y%d", i); v[i][1] = away(nm, -(1 - i % 2 * 2)); S a = Op::str(v[i][0]), b = Op::str(v[i][1]);
        t += k == 0 ? a + " " + b : k == 1 ? "# " + a : k == 2 ? S("") : k == 3 ? "  " + a + "   " + b + " 9 # x" : k == 4 ? a : k == 5 ? a + " x" : k == 6 ? "  " + a + "\t" + b + " \r" : S("a b o p"); t += "\n"; if (k == 3) k = 5; if (i == 0 && (k == 5 || k == 7)) k = 1; /* taken as header */ bad = bad || k == 4 || k == 5; kind.push_back(k); }
    FldExporter x; std::istringstream is(t); S s; bool refused = false; try { s = x.toString(e.get(), is); } catch (std::exception&) { refused = true; }
    sx_check(refused == bad, "rows with too few values or text are refused");
    bool other = false; std::ostringstream os; try { std::istringstream js(t); x.write(e.get(), os, js); } catch (std::exception&) { other = true; } sx_check(other == bad, "nor are they written to a stream"); if (refused || other || bad) return; if (lines > 2 && sx_choice("stream", 2)) s = os.str();
    std::vector<S> l = rows(s); size_t at = 1; bool ok = !l.empty() && l[0] == "a b o p"; for (int i = 0; i < lines && ok; ++i) { if (kind[i] == 1) continue; ok = at < l.size() && (kind[i] == 2 ? l[at].empty() : row(l[at], " ", v[i], 2, true, true, e->getOutputVariable(1)->getDefaultValue(), 0.006)); ++at; } sx_check(ok & (at == l.size()), "one row for every row of values, in order, blank lines kept, comments and header left out");
}
CASE(nonfinite, "real", 2, 2, "cost=2 time=60") { // rows holding values that are not finite are taken as they are (SUB: text, stream)
    std::unique_ptr<Engine> e(make(2, false)), f(make(2, false)); S t; char nm[8]; scalar v[3][2]; FldExporter x; x.setExportHeader(false);
    for (int i = 0; i < 3; ++i) for (int j = 0; j < 2; ++j) { std::snprintf(nm, sizeof nm, "k%d%d", i, j); int k = i == 1 || j == 0 ? sx_choice(nm, 4) : 0; std::snprintf(nm, sizeof nm, "v%d%d", i, j); v[i][j] = k == 0 ? sx_real(nm, 1, 50) : k == 1 ? fl::nan : k == 2 ? fl::inf : -fl::inf; t += Op::str(v[i][j]) + (j ? "\n" : " "); }
    S s; std::istringstream is(t); if (SUB == 0) s = x.toString(e.get(), is); else { std::ostringstream os; x.write(e.get(), os, is); s = os.str(); }
    std::vector<S> l = rows(s); bool ok = l.size() == 3;
    for (int i = 0; i < 3 && ok; ++i) { std::vector<S> c = Op::split(l[i], " "); ok = c.size() == 4; for (int j = 0; j < 2; ++j) f->getInputVariable(j)->setValue(v[i][j]); f->process(); for (int j = 0; j < 4 && ok; ++j) { scalar w = j < 2 ? v[i][j] : f->getOutputVariable(j - 2)->getValue(); ok = num(c[j], w) | near(Op::toScalar(c[j]), w, 0.006); } }
    sx_check(ok, "values that are not finite are taken from the row like others");
}
CASE(single, "real", 1, 1, "cost=2 time=60") { // one row of values; extra values do not matter
    std::unique_ptr<Engine> e(make(2, true)); scalar a = sx_real("a", -50, 50), b = sx_real("b", -50, 50); int n = sx_choice("n", 5); std::vector<scalar> v; for (int i = 0; i < n; ++i) v.push_back(i == 0 ? a : i == 1 ? b : 3.0); scalar w[] = {a, b};
    FldExporter x; std::ostringstream os; bool refused = false; try { x.write(e.get(), os, v); } catch (fl::Exception&) { refused = true; } sx_check(refused == (n == 1), "too few values are refused"); if (refused) return;
    std::vector<S> l = rows(os.str()); sx_check(l.size() == 1 && (n == 0 ? l[0].empty() : row(l[0], " ", w, 2, true, true, e->getOutputVariable(1)->getDefaultValue())), "a row is the inputs and outputs"); if (n) sx_check(same(e->getInputVariable("a")->getValue(), a) & same(e->getInputVariable("b")->getValue(), b), "the engine holds the values of the row");
    std::unique_ptr<FldExporter> y(x.clone()); y->setSeparator(";"); sx_check(y->header(e.get()) == "a;b;o;p" && x.header(e.get()) == "a b o p" && y->getSeparator() == ";" && x.getSeparator() == " " && y->exportsHeader() && y->exportsInputValues() && y->exportsOutputValues(), "clones have their own settings");
}
CASE(counter, "real", 3, 3, "cost=2 time=60") { // a counter of SUB + 1 digits
    int n = SUB + 1; std::vector<int> x, lo, hi; char nm[8]; for (int i = 0; i < n; ++i) { std::snprintf(nm, sizeof nm, "l%d", i); lo.push_back(sx_int(nm, -1000, 1000)); std::snprintf(nm, sizeof nm, "h%d", i); hi.push_back(sx_int(nm, -1000, 1000)); std::snprintf(nm, sizeof nm, "x%d", i); x.push_back(sx_int(nm, -1000, 1000)); sx_assume((lo[i] <= x[i]) & (x[i] <= hi[i])); }
    int at = sx_choice("at", n + 1); bool whole = at == n; if (whole) at = n - 1; std::vector<int> y(x); bool r = whole ? Op::increment(y, lo, hi) : Op::increment(y, at, lo, hi); bool ok = y.size() == (size_t)n, carry = true;
    for (int i = n - 1; i > at; --i) ok = ok & (y[i] == x[i]);
    for (int i = at; i >= 0; --i) { bool full = x[i] == hi[i]; ok = ok & (y[i] == (carry ? (full ? lo[i] : x[i] + 1) : x[i])); carry = carry & full; }
    sx_check(ok & (r == !carry), "counting goes to the next number, or back to the first and says so; digits after the place stay");
    std::vector<int> z; sx_check(!Op::increment(z, z, z) && !Op::increment(y, -1, lo, hi), "there is no next number of no digits");
}
CASE(direct, "real", 2, 2, "cost=2 time=60") { // one row for some of the variables: locked ranges, disabled variables, given values out of range; SUB: variable that is locked
    std::unique_ptr<Engine> e(make(2, false)); scalar given[2] = {sx_real("a", 1, 50), sx_real("b", 1, 50)}, cur[2] = {sx_real("ca", 1, 50), sx_real("cb", 1, 50)}, lo = sx_real("lo", 1, 10), hi = sx_real("hi", 10, 20);
    int act = sx_choice("active", 4), off = sx_choice("off", 4), lock = sx_choice("lock", 2); std::vector<InputVariable*> active; std::vector<scalar> v; scalar shown[2], used[2];
    for (int i = 0; i < 2; ++i) { InputVariable* x = e->getInputVariable(i); x->setRange(lo, hi); x->setValue(cur[i]); if (lock && i == SUB) { x->setLockValueInRange(true); x->setValue(cur[i]); cur[i] = cur[i] < lo ? lo : cur[i] > hi ? hi : cur[i]; } x->setEnabled(!(off >> i & 1)); bool on = act >> i & 1; active.push_back(on ? x : fl::null); v.push_back(given[i]);
        shown[i] = on ? given[i] : cur[i]; used[i] = lock && i == SUB && on ? (given[i] < lo ? lo : given[i] > hi ? hi : given[i]) : shown[i]; }
    std::unique_ptr<Engine> f(new Engine(*e)); for (int i = 0; i < 2; ++i) f->getInputVariable(i)->setValue(used[i]); f->process();
    FldExporter x; std::ostringstream os; x.write(e.get(), os, v, active); std::vector<S> l = rows(os.str()), c; bool ok = l.size() == 1; if (ok) c = Op::split(l[0], " "); ok = ok && c.size() == 4;
    for (int i = 0; ok && i < 2; ++i) ok = ok & num(c[i], shown[i]); sx_check(ok, "the row starts with the values given for active variables and held by the others");
    bool held = true, o = ok; for (int i = 0; i < 2; ++i) { held = held & same(e->getInputVariable(i)->getValue(), used[i]); if (o) { scalar w = f->getOutputVariable(i)->getValue(); o = num(c[2 + i], w) | near(Op::toScalar(c[2 + i]), w, 0.006); } }
    sx_check(held, "the engine holds the values of the row, within the range where locked"); sx_check(o, "and the outputs that the engine computes for them");
}
