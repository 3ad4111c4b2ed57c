// Instrumented models of library routines whose bodies are not in our IR.  They are compiled with the
// pass, so symbolic bytes are followed branch by branch.  Functions named sxm_* replace the originals.
#include <cstddef>
#include <cstdlib>
#include <cstring>
#include <istream>
#include <limits>
#include <ostream>
#include <sstream>
#include <string>

extern "C" {
bool sx_sym_double(double v);
void sx_paint_fmt(char* text, unsigned long len, double v, int fixed);
int sx_fmt_info(int ch, int* len, int* id);
double sx_rt(int id, double value);
int sx_conc_int(int v);
long sx_conc_long(long v);
void sx_model_lost(const char* what);
int sx_drop_int(int v);
double sx_drop_double(double v);

int sxm_memcmp(const void* a, const void* b, size_t n) {
    const unsigned char *p = (const unsigned char*)a, *q = (const unsigned char*)b;
    for (size_t i = 0; i < n; ++i) if (p[i] != q[i]) return p[i] < q[i] ? -1 : 1;
    return 0;
}
size_t sxm_strlen(const char* s) { size_t n = 0; while (s[n]) ++n; return n; }
const void* sxm_memchr(const void* s, int c, size_t n) {
    const unsigned char* p = (const unsigned char*)s;
    for (size_t i = 0; i < n; ++i) if (p[i] == (unsigned char)c) return p + i;
    return 0;
}
int sxm_strcmp(const char* a, const char* b) {
    for (;; ++a, ++b) { if (*a != *b) return (unsigned char)*a < (unsigned char)*b ? -1 : 1; if (!*a) return 0; }
}
int sxm_strncmp(const char* a, const char* b, size_t n) {
    for (; n; ++a, ++b, --n) { if (*a != *b) return (unsigned char)*a < (unsigned char)*b ? -1 : 1; if (!*a) return 0; }
    return 0;
}
const char* sxm_strchr(const char* s, int c) { for (;; ++s) { if (*s == (char)c) return s; if (!*s) return 0; } }
// "C" locale classification as branch-free predicates over the code (one fork per call site at most)
static inline bool fmtc(int c) { int l, i; return sx_fmt_info(c, &l, &i) != 0; }
int sxm_isspace(int c) { if (fmtc(c)) return 0; return (c == ' ') | ((c >= 9) & (c <= 13)); }
int sxm_isdigit(int c) { return (c >= '0') & (c <= '9'); }
int sxm_isupper(int c) { return (c >= 'A') & (c <= 'Z'); }
int sxm_islower(int c) { return (c >= 'a') & (c <= 'z'); }
int sxm_isalpha(int c) { return ((c >= 'A') & (c <= 'Z')) | ((c >= 'a') & (c <= 'z')); }
int sxm_isalnum(int c) { return ((c >= 'A') & (c <= 'Z')) | ((c >= 'a') & (c <= 'z')) | ((c >= '0') & (c <= '9')); }
int sxm_isgraph(int c) { if (fmtc(c)) return 1; return (c > 32) & (c < 127); }
int sxm_isprint(int c) { return (c >= 32) & (c < 127); }
int sxm_ispunct(int c) { return ((c > 32) & (c < 127)) & !(((c >= 'A') & (c <= 'Z')) | ((c >= 'a') & (c <= 'z')) | ((c >= '0') & (c <= '9'))); }
int sxm_isxdigit(int c) { return ((c >= 'A') & (c <= 'F')) | ((c >= 'a') & (c <= 'f')) | ((c >= '0') & (c <= '9')); }
int sxm_tolower(int c) { return (c >= 'A') & (c <= 'Z') ? c + 32 : c; }
int sxm_toupper(int c) { return (c >= 'a') & (c <= 'z') ? c - 32 : c; }
}

typedef std::char_traits<char> CT;
static int sxm_peek(std::streambuf* b) { return b->sgetc(); }
static int sxm_next(std::streambuf* b) { return b->snextc(); }

extern "C" std::istream* sxm_extract_string(std::istream& is, std::string& s) {
    std::istream::sentry ok(is, true);
    if (ok) {
        std::streambuf* b = is.rdbuf();
        int c = sxm_peek(b);
        while (c != EOF && sxm_isspace(c)) c = sxm_next(b);
        s.erase();
        size_t n = 0, w = is.width() > 0 ? (size_t)is.width() : std::numeric_limits<size_t>::max();
        while (n < w && c != EOF && !sxm_isspace(c)) {
            s.push_back((char)c);
            ++n;
            c = sxm_next(b);
        }
        is.width(0);
        std::ios_base::iostate st = std::ios_base::goodbit;
        if (c == EOF) st |= std::ios_base::eofbit;
        if (!n) st |= std::ios_base::failbit;
        if (st) is.setstate(st);
    } else is.setstate(std::ios_base::failbit);
    return &is;
}
extern "C" std::istream* sxm_getline(std::istream& is, std::string& s, char delim) {
    std::ios_base::iostate st = std::ios_base::goodbit;
    size_t n = 0;
    std::istream::sentry ok(is, true);
    if (ok) {
        s.erase();
        std::streambuf* b = is.rdbuf();
        int c = sxm_peek(b);
        for (;;) {
            if (c == EOF) { st |= std::ios_base::eofbit; break; }
            if ((char)c == delim) { ++n; b->sbumpc(); break; }
            s.push_back((char)c);
            ++n;
            c = sxm_next(b);
        }
    }
    if (!n) st |= std::ios_base::failbit;
    if (st) is.setstate(st);
    return &is;
}
extern "C" std::istream* sxm_getline2(std::istream& is, std::string& s) { return sxm_getline(is, s, '\n'); }

extern "C" std::istream* sxm_extract_double(std::istream& is, double& out) {
    std::istream::sentry ok(is, true);
    if (!ok) { return &is; }
    std::streambuf* b = is.rdbuf();
    int c = sxm_peek(b);
    while (c != EOF && sxm_isspace(c)) c = sxm_next(b);
    if (c == EOF) { out = 0.0; is.setstate(std::ios_base::eofbit | std::ios_base::failbit); return &is; }
    int len = 0, id = 0;
    int k = sx_fmt_info(c, &len, &id);
    if (k) {
        std::string t;
        int l2 = len, i2 = id, kk = k;
        bool whole = k == 1;
        while (c != EOF && kk && i2 == id && kk == (int)t.size() + 1) {
            t.push_back((char)sx_drop_int(c));
            c = sxm_next(b);
            if (c == EOF || (int)t.size() == len) break;
            kk = sx_fmt_info(c, &l2, &i2);
        }
        std::string num = t;
        if (!whole || (int)t.size() != len) sx_model_lost("partial-fmt");
        if (c != EOF) {
            int f = sx_fmt_info(c, &l2, &i2);
            if (f || sxm_isdigit(c) || c == '.' || c == 'e' || c == 'E') sx_model_lost("fmt-glued");
        }
        char buf[512];
        size_t n = num.size() < 511 ? num.size() : 511;
        for (size_t i = 0; i < n; ++i) buf[i] = num[i];
        buf[n] = 0;
        char* endp = 0;
        double v = strtod(buf, &endp);
        bool special = buf[0] == 'n' || buf[0] == 'i' || (buf[0] == '-' && buf[1] == 'i');
        if (special) { out = 0.0; is.setstate(std::ios_base::failbit); return &is; }
        out = sx_rt(id, v);
        if (c == EOF) is.setstate(std::ios_base::eofbit);
        return &is;
    }
    // libstdc++ num_get accumulation for floating point in the "C" locale
    double mant = 0.0; int digits = 0, frac = 0; bool neg = false, dec = false, found = false, bad = false;
    char raw[512]; size_t rn = 0;
    if (c == '+' || c == '-') { neg = c == '-'; raw[rn++] = neg ? '-' : '+'; c = sxm_next(b); }
    bool sci = false; int esign = 1; int ev = 0; bool edig = false;
    while (c != EOF && rn < 500) {
        if (sxm_isdigit(c)) {
            if (!sci) {
                found = true;
                mant = mant * 10.0 + (double)(c - '0');
                if (digits || c != '0') ++digits;
                if (dec) ++frac;
            } else { edig = true; int d = sx_conc_int(c) - '0'; if (ev < 10000) ev = ev * 10 + d; }
            raw[rn++] = (char)sx_drop_int(c);
        } else if (c == '.' && !dec && !sci) { dec = true; raw[rn++] = '.'; }
        else if ((c == 'e' || c == 'E') && !sci && found) {
            sci = true; raw[rn++] = 'e';
            c = sxm_next(b);
            if (c == EOF) break;
            if (c == '+' || c == '-') { if (c == '-') esign = -1; raw[rn++] = esign < 0 ? '-' : '+'; }
            else continue;
        } else break;
        c = sxm_next(b);
    }
    raw[rn] = 0;
    if (!found || (sci && !edig)) bad = true;
    std::ios_base::iostate st = std::ios_base::goodbit;
    if (bad) { out = 0.0; st |= std::ios_base::failbit; }
    else {
        double v = mant;
        int e = esign * ev - frac;
        if (digits > 15 || e < -22 || e > 22) {
            if (sx_sym_double(mant)) sx_model_lost("long-number");
            char* endp = 0; v = strtod(raw, &endp);
            if (v > std::numeric_limits<double>::max()) { v = std::numeric_limits<double>::max(); st |= std::ios_base::failbit; }
            else if (v < -std::numeric_limits<double>::max()) { v = -std::numeric_limits<double>::max(); st |= std::ios_base::failbit; }
        } else {
            double p = 1.0; for (int i = 0; i < (e < 0 ? -e : e); ++i) p *= 10.0;
            v = e < 0 ? mant / p : mant * p;
            if (neg) v = -v;
        }
        out = v;
    }
    if (c == EOF) st |= std::ios_base::eofbit;
    if (st) is.setstate(st);
    return &is;
}
extern "C" std::ostream* sxm_insert_double(std::ostream& os, double v) {
    if (!sx_sym_double(v)) { os << v; return &os; }
    std::ostringstream tmp;
    tmp.copyfmt(os);
    tmp << sx_drop_double(v);
    std::string u = tmp.str();
    sx_paint_fmt(&u[0], u.size(), v, (os.flags() & std::ios_base::floatfield) == std::ios_base::fixed);
    os.write(u.data(), (std::streamsize)u.size());
    return &os;
}
extern "C" std::ostream* sxm_insert_long(std::ostream& os, long v) { os << sx_conc_long(v); return &os; }
extern "C" std::ostream* sxm_insert_ulong(std::ostream& os, unsigned long v) { os << (unsigned long)sx_conc_long((long)v); return &os; }
extern "C" std::ostream* sxm_insert_int(std::ostream& os, int v) { os << sx_conc_int(v); return &os; }

// wrappers used where the address of a libm routine is taken
#include <cmath>
extern "C" {
#define W1(f) double sxw_##f(double a) { return f(a); }
#define W2(f) double sxw_##f(double a, double b) { return f(a, b); }
W1(exp) W1(sqrt) W1(cos) W1(sin) W1(log) W1(fabs) W1(floor) W1(ceil) W1(tan) W1(acos) W1(asin) W1(atan) W1(cosh) W1(sinh)
W1(tanh) W1(log10) W1(acosh) W1(asinh) W1(atanh) W1(log1p) W1(round) W1(trunc) W1(rint) W1(cbrt) W1(exp2) W1(log2) W1(expm1)
W2(pow) W2(fmod) W2(atan2) W2(fmin) W2(fmax) W2(copysign) W2(hypot)
double sxw_nearbyint(double a) { return nearbyint(a); }
}
