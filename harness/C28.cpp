// Numbers as text: parsing accepts exactly numbers, printing keeps the value.
// BOUNDS: any text of up to 4 (thorough 5) bytes for parsing one number (exponents up to 15), lists of up to 3 tokens with any white space; any real in [-1e6,1e6], NaN and both infinities for printing, 0-9 decimals
// ASSUME: the number printed by the C++ library for a value re-reads as that value (rounding to the printed decimals is the C++ library's); decimals of concrete values are checked against printf
#include "common.h"
static S bytes(const char* p, int n) { S s; for (int i = 0; i < n; ++i) { static char nm[32]; std::snprintf(nm, sizeof nm, "%s%d", p, i); s += (char)sx_byte(nm); } return s; }
static bool space_(char c) { return (c == ' ') | ((c >= 9) & (c <= 13)); }
static bool digit(char c) { return (c >= '0') & (c <= '9'); }
// reference: white space, sign, digits with an optional point, optional exponent, nothing else
static bool number(const S& s, scalar* v, bool* big) {
    size_t i = 0; while (i < s.size() && space_(s[i])) ++i; bool neg = false; if (i < s.size() && (s[i] == '+' || s[i] == '-')) { neg = s[i] == '-'; ++i; }
    scalar m = 0; int frac = 0, n = 0; bool dot = false; for (; i < s.size(); ++i) { if (digit(s[i])) { m = m * 10 + (s[i] - '0'); ++n; if (dot) ++frac; } else if (s[i] == '.' && !dot) dot = true; else break; }
    if (!n) return false; *big = false; int e = 0;
    if (i < s.size()) { if (s[i] != 'e' && s[i] != 'E') return false; ++i; bool en = false; if (i < s.size() && (s[i] == '+' || s[i] == '-')) { en = s[i] == '-'; ++i; } if (i >= s.size()) return false; for (; i < s.size(); ++i) { if (!digit(s[i])) return false; for (int d = 0; d < 10; ++d) if (s[i] == '0' + d) { e = e * 10 + d; break; } } if (en) e = -e; }
    *big = e > 15 || e < -15; scalar f = 1; int t = e - frac; for (int k = 0; k < (t < 0 ? -t : t) && k < 40; ++k) f *= 10; *v = t < 0 ? m / f : m * f; if (neg) *v = -*v; return true;
}
static bool tail(const S& s) { return s == "nan" || s == "inf" || s == "-inf" || s == "-nan"; }
CASE(parse, "real", 4, 5, "cost=8 time=250 max_paths=40000") {
    S s = bytes("s", SUB + 1); scalar want = 0, got = 0; bool big = false, ok = number(s, &want, &big); if (tail(s) || big) return; // beyond double range or precision: not decided
    bool threw = false; try { got = Op::toScalar(s); } catch (fl::Exception&) { threw = true; }
    bool isn = Op::isNumeric(s); bool good = ok; scalar alt = Op::toScalar(s, 77, &good), quiet = Op::toScalar(s, 77);
    sx_check(threw == !ok, "a text is a number exactly when it is one from end to end"); sx_check(isn == ok, "numeric exactly when it converts"); sx_check(good == ok, "conversion with an alternative tells whether it converted");
    if (ok) sx_check(near(got, want, 1e-9 * (1 + std::fabs(want))) & (alt == got) & (quiet == got), "value of the number"); else sx_check((alt == 77) & (quiet == 77), "the alternative if it did not");
}
CASE(special, "real", 1, 1, "cost=1 time=30") {
    static const char* const t[] = {"nan", "inf", "-inf", "", " ", "1 2", "1,5", "0x10", "1e", "--1", "abc", "1.5.2", "Inf", "+inf", "NaN"}; int i = sx_choice("i", 15); bool ok = true; scalar v = 0; try { v = Op::toScalar(t[i]); } catch (fl::Exception&) { ok = false; }
    if (i < 3) sx_check(ok && (i == 0 ? v != v : v == (i == 1 ? INFINITY : -INFINITY)) && Op::isNumeric(t[i]), "nan and infinities"); else sx_check(ok == false && !Op::isNumeric(t[i]), "anything else is refused");
    bool o = i >= 3; scalar w = Op::toScalar(t[i], 7, &o); sx_check(o == (i < 3) && (i < 3 ? same(w, v) : w == 7), "conversion with an alternative tells whether it converted");
}
CASE(lists, "real", 4, 4, "cost=4 time=120") {
    int n = SUB; scalar v[3]; S s; static const char* const nm[] = {"a", "b", "c"}; static const char* const ws[] = {"w0", "w1", "w2"}; int bad = sx_choice("bad", 4) - 1; if (bad >= n) return;
    for (int i = 0; i < n; ++i) { v[i] = sx_real(nm[i], -1000, 1000); sx_assume(std::fabs(v[i]) > 0.01); char w = (char)sx_byte(ws[i]); sx_assume(space_(w)); s += S(1, w); if (i == 1) s += w; if (i == bad) s += i == 1 ? "1x" : "?"; else s += Op::str(v[i]); }
    bool threw = false; std::vector<scalar> r; try { r = Op::toScalars(s); } catch (fl::Exception&) { threw = true; } sx_check(threw == (bad >= 0), "a list with anything else than numbers is refused");
    if (bad < 0) { bool same_ = (int)r.size() == n; for (int i = 0; same_ && i < n; ++i) same_ = same_ & near(r[i], v[i], 0.00051); sx_check(same_, "every number in order"); }
    bool ok = bad >= 0; r = Op::toScalars(s, -5, &ok); bool all = (int)r.size() == n; for (int i = 0; all && i < n; ++i) all = all & near(r[i], i == bad ? -5 : v[i], 0.00051); sx_check(all && ok == (bad < 0), "the alternative in place of what is not a number"); r = Op::toScalars(s, -5); sx_check((int)r.size() == n, "the alternative in place of what is not a number");
}
CASE(print, "real", 10, 10, "cost=2 time=60") { // SUB = decimals
    scalar x = sx_real("x", -1e6, 1e6), tiny = 1; for (int i = 0; i < SUB; ++i) tiny /= 10; bool small = std::fabs(x) < tiny; sx_assume(std::fabs(std::fabs(x) - tiny) > 1e-12);
    if (SUB != 3) fl::fuzzylite::setDecimals(3); S s = Op::str(x, SUB); scalar y = Op::toScalar(s);
    sx_check(small ? y == 0 : near(y, x, tiny * 0.51), "printed and read back, values below the last decimal are zero"); if (SUB != 3) fl::fuzzylite::setDecimals(SUB); sx_check(Op::str(x) == s, "the global number of decimals is the default"); fl::fuzzylite::setDecimals(3);
}
CASE(decimals, "real", 10, 10, "cost=1 time=30") { // concrete values: exactly as many decimals as asked for
    static const scalar v[] = {0, 1, -1, 0.5, 3.14159265358979, -123.456789, 1e6, 0.001, -0.0004, 99999.999999, 12345678.9, 0.1}; int i = sx_choice("i", 12); char b[64]; scalar t = std::pow(10.0, -SUB); std::snprintf(b, sizeof b, "%.*f", SUB, std::fabs(v[i]) < t ? 0.0 : v[i]);
    S s = Op::str(v[i], SUB); sx_check(s == b, "as many decimals as asked for, zero below"); sx_check(std::fabs(Op::toScalar(s) - v[i]) <= t, "within the last decimal");
    if (SUB == 0) { sx_check(Op::str(fl::nan) == "nan" && Op::str(fl::inf) == "inf" && Op::str(-fl::inf) == "-inf" && Op::str(fl::nan, 0) == "nan", "nan and infinities print as such"); sx_check(Op::str(7) == "7" && Op::str<const std::string&>("text") == "text" && Op::str(-12) == "-12", "integers and texts print as they are"); }
}
