// Text operations: replace, split, join, trim, valid names.
// BOUNDS: any text of up to 5 (thorough 6) bytes, any search text of 0-2 bytes, any delimiter of 0-2 bytes; valid names of texts of up to 4 (thorough 5) bytes; replacements of 0-3 bytes including the searched text
#include "common.h"
static S bytes(const char* p, int n) { S s; for (int i = 0; i < n; ++i) { static char nm[32]; std::snprintf(nm, sizeof nm, "%s%d", p, i); s += (char)sx_byte(nm); } return s; }
// reference: positions of the leftmost non-overlapping matches
static std::vector<size_t> matches(const S& s, const S& f) { std::vector<size_t> r; if (f.empty()) return r; for (size_t i = 0; i + f.size() <= s.size();) { bool m = true; for (size_t k = 0; m && k < f.size(); ++k) if (s[i + k] != f[k]) m = false; if (m) { r.push_back(i); i += f.size(); } else ++i; } return r; }
static bool space_(char c) { return (c == ' ') | ((c >= 9) & (c <= 13)); }
CASE(replace, "real", 9, 12, "cost=6 time=200 max_paths=40000") {
    int n = SUB % 3 * 2 + (THOROUGH && SUB < 9 ? 2 : 1) + (SUB >= 9), fn = SUB / 3 % 3; S s = bytes("s", n > 6 ? 6 : n), f = bytes("f", fn);
    int k = sx_choice("r", 4); S r = k == 0 ? S() : k == 1 ? S("xyz") : k == 2 ? f : f + f; std::vector<size_t> m = matches(s, f);
    S all, one; size_t from = 0; for (size_t i = 0; i < m.size(); ++i) { all += s.substr(from, m[i] - from) + r; from = m[i] + f.size(); } all += s.substr(from);
    one = m.empty() ? s : s.substr(0, m[0]) + r + s.substr(m[0] + f.size());
    sx_check(Op::findReplace(s, f, r) == all && Op::replaceAll(s, f, r) == all && Op::findReplace(s, f, r, true) == all, "every match is replaced, everything else kept");
    sx_check(Op::replaceFirst(s, f, r) == one && Op::findReplace(s, f, r, false) == one, "only the first match is replaced, everything else kept");
}
CASE(split, "real", 9, 12, "cost=6 time=200 max_paths=40000") {
    int n = SUB % 3 * 2 + (SUB % 3 == 2 || SUB >= 9), dn = SUB / 3 % 3; if (THOROUGH && SUB >= 9) n = 6; S s = bytes("s", n), d = bytes("d", dn); std::vector<size_t> m = matches(s, d);
    std::vector<S> all, some; size_t from = 0; for (size_t i = 0; i <= m.size(); ++i) { size_t to = i < m.size() ? m[i] : s.size(); S w = s.substr(from, to - from); all.push_back(w); if (!w.empty()) some.push_back(w); from = to + d.size(); }
    if (s.empty() || d.empty()) { some.clear(); some.push_back(s); }
    std::vector<S> got = Op::split(s, d, false), tok = Op::split(s, d, true);
    sx_check(got == all, "all parts between delimiters"); sx_check(tok == some, "the parts that are not empty"); sx_check(Op::join(got, d) == s, "joining the parts gives the text back");
    if (dn == 1 && n <= 3) { bool sp = d[0] == ' '; if (sp) sx_check(Op::split(s) == some, "splits on spaces by default"); }
}
CASE(trim, "real", 6, 7, "cost=4 time=120") {
    S s = bytes("s", SUB), t = Op::trim(s); size_t a = 0, b = s.size(); while (a < b && space_(s[a])) ++a; while (b > a && space_(s[b - 1])) --b;
    sx_check(t == s.substr(a, b - a), "the text without white space at its ends"); sx_check(Op::trim(t) == t, "trimming twice changes nothing");
}
CASE(names, "real", 5, 6, "cost=4 time=120") {
    S s = bytes("s", SUB), v = Op::validName(s), w; for (size_t i = 0; i < s.size(); ++i) { char c = s[i]; if (((c >= '0') & (c <= '9')) | ((c >= 'a') & (c <= 'z')) | ((c >= 'A') & (c <= 'Z')) | (c == '_') | (c == '.')) w += c; }
    sx_check(v == (w.empty() ? S("_") : w), "letters, digits, underscores and dots are kept, nothing else"); sx_check(!v.empty(), "a name is never empty"); sx_check(Op::validName(v) == v, "a valid name stays");
}
CASE(join, "real", 1, 1, "cost=1 time=30") {
    S a = bytes("a", 1), b = bytes("b", 1), d = bytes("d", 1); std::vector<S> v; sx_check(Op::join(v, d).empty(), "nothing"); v.push_back(a); sx_check(Op::join(v, d) == a, "one"); v.push_back(b); v.push_back(""); sx_check(Op::join(v, d) == a + d + b + d, "parts with separators between");
    sx_check(Op::join(3, d, a.c_str(), b.c_str(), "z") == a + d + b + d + "z" && Op::join(1, d, a.c_str()) == a, "listed parts");
    scalar x = sx_real("x", -100, 100); crisp(x, 0); sx_assume(std::fabs(x) > 0.01); std::vector<scalar> n; n.push_back(x); n.push_back(2); S j = Op::join(n, ", "); std::vector<S> p = Op::split(j, ", "); sx_check(p.size() == 2 && near(Op::toScalar(p[0]), x, 0.00051) && Op::toScalar(p[1]) == 2, "numbers");
}
