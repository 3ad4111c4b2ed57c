// Runtime of the symbolic executor: expression arena, shadow memory, event log, trace dump.
// Never instrumented; uses no C++ library templates.
#define _GNU_SOURCE
#include <math.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>
#include <stdbool.h>
#include <stdarg.h>

typedef uint32_t u32; typedef uint64_t u64; typedef uint8_t u8;
enum { MAXARGS = 64 };
u32 sxr_args[MAXARGS]; u32 sxr_ret[8]; void* sxr_callee; void* sxr_rettag;
u32 sxr_va_n; u32 sxr_va_sh[MAXARGS]; u64 sxr_va_vals[MAXARGS];

enum { K_CONST = 1, K_INPUT, K_BIN, K_CMP, K_UN, K_CAST, K_ITE, K_FN, K_EXTRACT, K_CONCAT, K_FMT, K_RT };
enum { E_BRANCH = 1, E_CONC, E_ASSUME, E_CHECK, E_LOST, E_REACH };
// LLVM 18 opcode numbers used below
enum { OP_FNEG = 12, OP_ADD = 13, OP_FADD, OP_SUB, OP_FSUB, OP_MUL, OP_FMUL, OP_UDIV, OP_SDIV, OP_FDIV, OP_UREM, OP_SREM, OP_FREM,
       OP_SHL, OP_LSHR, OP_ASHR, OP_AND, OP_OR, OP_XOR };
enum { C_TRUNC = 38, C_ZEXT, C_SEXT, C_FPTOUI, C_FPTOSI, C_UITOFP, C_SITOFP, C_FPTRUNC, C_FPEXT, C_PTRTOINT, C_INTTOPTR, C_BITCAST };

typedef struct { u8 kind, fp; uint16_t width; u32 op, a, b, c; u32 next; u64 val; } Node;
typedef struct { u32 kind, expr, taken, site, str, aux; } Event;
typedef struct { char name[96]; u32 node; u32 type; u64 lo, hi; } Input;

static Node* N; static u32 nN = 1, capN;
static Event* E; static u32 nE, capE;
static Input* IN; static u32 nIN, capIN;
static const char** STR; static u32 nSTR, capSTR;
#define HB (1u << 18)
static u32* hashTab;
static int realMode, impure;
static char* forced; static u32 nForced, nDec;
static const char* tracePath;
static u32 maxNodes = 4000000;
static struct { char name[96]; u64 v; } *given; static u32 nGiven;

static void finish(int status);
static u32 strId(const char* s) {
    if (!s) s = "";
    static const char* lastp; static u32 lasti;
    if (s == lastp && nSTR) return lasti;
    for (u32 i = 0; i < nSTR; ++i) if (STR[i] == s || !strcmp(STR[i], s)) { lastp = s; lasti = i; return i; }
    if (nSTR == capSTR) STR = realloc(STR, sizeof(*STR) * (capSTR = capSTR ? capSTR * 2 : 256));
    STR[nSTR] = strdup(s); return nSTR++;
}
static void init(void) {
    static int done; if (done) return; done = 1;
    N = malloc(sizeof(Node) * (capN = 1 << 16)); memset(N, 0, sizeof(Node));
    hashTab = calloc(HB, 4);
    const char* m = getenv("SX_MODE"); realMode = m && !strcmp(m, "real");
    tracePath = getenv("SX_TRACE");
    const char* f = getenv("SX_FORCE");
    if (f && *f) { forced = strdup(f); nForced = strlen(f); }
    const char* in = getenv("SX_INPUTS");
    if (in) {
        FILE* fp = fopen(in, "r");
        if (fp) {
            char nm[96]; unsigned long long v; u32 cap = 0;
            while (fscanf(fp, "%95s %llx", nm, &v) == 2) {
                if (nGiven == cap) given = realloc(given, sizeof(*given) * (cap = cap ? cap * 2 : 64));
                strcpy(given[nGiven].name, nm); given[nGiven].v = v; nGiven++;
            }
            fclose(fp);
        }
    }
}
static u64 mask(u32 w) { return w >= 64 ? ~0ull : ((1ull << w) - 1); }
static u32 mk(u8 kind, u8 fp, u32 width, u32 op, u32 a, u32 b, u32 c, u64 val) {
    val &= mask(width);
    u32 h = kind * 2654435761u ^ (fp + width * 131u) * 40503u ^ op * 97u ^ a * 2246822519u ^ b * 3266489917u ^ c * 668265263u ^ (u32)val ^ (u32)(val >> 32) * 374761393u;
    h ^= h >> 15; h &= HB - 1;
    for (u32 i = hashTab[h]; i; i = N[i].next) {
        Node* n = &N[i];
        if (n->kind == kind && n->fp == fp && n->width == width && n->op == op && n->a == a && n->b == b && n->c == c && n->val == val) return i;
    }
    if (nN == capN) N = realloc(N, sizeof(Node) * (capN *= 2));
    if (nN > maxNodes) finish(4);
    Node* n = &N[nN];
    n->kind = kind; n->fp = fp; n->width = width; n->op = op; n->a = a; n->b = b; n->c = c; n->val = val; n->next = hashTab[h];
    hashTab[h] = nN;
    return nN++;
}
static u32 konst(u32 w, u8 fp, u64 v) { return mk(K_CONST, fp, w, 0, 0, 0, 0, v); }
static u32 event(u32 kind, u32 expr, u32 taken, u32 site, const char* s, u32 aux) {
    if (nE == capE) E = realloc(E, sizeof(Event) * (capE = capE ? capE * 2 : 1024));
    Event e = {kind, expr, taken, site, strId(s), aux}; E[nE] = e;
    if (nE > 2000000) finish(5);
    return nE++;
}
static double D(u64 v) { double d; memcpy(&d, &v, 8); return d; }
static u64 B(double d) { u64 v; memcpy(&v, &d, 8); return v; }

// ---------------------------------------------------------------- shadow memory
#define PT (1u << 16)
static struct { u64 page; u64* sh; } pt[PT];
static u64* pageOf(u64 p, int create) {
    u32 h = (u32)((p * 0x9E3779B97F4A7C15ull) >> 48) & (PT - 1);
    while (pt[h].sh) { if (pt[h].page == p) return pt[h].sh; h = (h + 1) & (PT - 1); }
    if (!create) return 0;
    pt[h].page = p; pt[h].sh = calloc(4096, 8); return pt[h].sh;
}
static u64 getSh(u64 a) { u64* p = pageOf(a >> 12, 0); return p ? p[a & 4095] : 0; }
static void putSh(u64 a, u64 v) { u64* p = pageOf(a >> 12, v != 0); if (p) p[a & 4095] = v; }
static u8 byteOf(u32 e, u32 idx) { return (u8)(N[e].val >> (8 * idx)); }
static u64 validSh(u64 a) { // shadow entry if it matches memory, else 0
    u64 s = getSh(a); if (!s) return 0;
    u32 e = (u32)s; if (byteOf(e, (s >> 32) & 255) != *(u8*)a) { putSh(a, 0); return 0; }
    return s;
}
void sxr_clear(void* p, u64 n) {
    u64 a = (u64)p; if (nN == 1) return;
    while (n) {
        u64* pg = pageOf(a >> 12, 0); u64 off = a & 4095, k = 4096 - off; if (k > n) k = n;
        if (pg) memset(pg + off, 0, k * 8);
        a += k; n -= k;
    }
}
void sxr_store(void* p, u32 n, u32 s) {
    u64 a = (u64)p;
    if (!s) { sxr_clear(p, n); return; }
    for (u32 i = 0; i < n; ++i) putSh(a + i, (u64)s | ((u64)i << 32));
}
__attribute__((noinline)) static void lostEv(u32 e, const char* what, const char* fn) {
    char buf[256]; snprintf(buf, sizeof buf, "%s@%s", what ? what : "?", fn ? fn : "?");
    event(E_LOST, e, 0, 0, buf, 0);
}
static u32 byteNode(u64 s) {
    u32 e = (u32)s, idx = (s >> 32) & 255;
    if (N[e].width <= 8) return e;
    while (N[e].kind == K_CONCAT) { u32 hi = N[e].width / 8 - 1; if (idx == hi) return N[e].a; e = N[e].b; if (N[e].width <= 8) return e; }
    return mk(K_EXTRACT, 0, 8, idx, e, 0, 0, byteOf(e, idx));
}
u32 sxr_load(void* p, u32 nw, u64 val) {
    if (nN == 1) return 0;
    u32 n = nw & 255, w = nw >> 8; u64 a = (u64)p;
    u64 s0 = validSh(a); int any = s0 != 0;
    if (n == 1) { if (!s0) return 0; u32 b = byteNode(s0); if (w == 1 && N[b].width == 8) b = mk(K_CAST, 0, 1, C_TRUNC, b, 0, 0, val & 1); return b; }
    if (s0) {
        u32 e = (u32)s0;
        if (((s0 >> 32) & 255) == 0 && N[e].width == w) {
            u32 i; for (i = 1; i < n; ++i) if (validSh(a + i) != ((u64)e | ((u64)i << 32))) break;
            if (i == n) return e;
        }
    }
    u64 sh[8]; sh[0] = s0;
    for (u32 i = 1; i < n; ++i) { sh[i] = validSh(a + i); any |= sh[i] != 0; }
    if (!any) return 0;
    u32 r = 0;
    for (u32 i = 0; i < n; ++i) {
        u32 b = sh[i] ? byteNode(sh[i]) : konst(8, 0, ((u8*)a)[i]);
        if (sh[i] && (N[(u32)sh[i]].fp && realMode)) { lostEv((u32)sh[i], "fp-bytes", 0); return 0; }
        u64 v = val & mask(8 * (i + 1));
        r = i == 0 ? b : mk(K_CONCAT, 0, 8 * (i + 1), 0, b, r, 0, v);
    }
    return r;
}
void sxr_copy(void* d, void* s, u64 n) {
    if (nN == 1 || !n) return;
    u64 da = (u64)d, sa = (u64)s;
    int anyS = 0;
    for (u64 pg = sa >> 12; pg <= (sa + n - 1) >> 12; ++pg) if (pageOf(pg, 0)) { anyS = 1; break; }
    if (!anyS) { sxr_clear(d, n); return; }
    if (da <= sa) for (u64 i = 0; i < n; ++i) putSh(da + i, validSh(sa + i));
    else for (u64 i = n; i-- > 0;) putSh(da + i, validSh(sa + i));
}
void sxr_memset(void* d, u32 s, u64 n) {
    if (!s) { sxr_clear(d, n); return; }
    for (u64 i = 0; i < n; ++i) putSh((u64)d + i, (u64)s);
}

// ---------------------------------------------------------------- FMT helpers
static u32 fmtBase(u32 e) {
    while (e) { if (N[e].kind == K_FMT) return e; if (N[e].kind == K_CONCAT) { u32 f = fmtBase(N[e].a); if (f) return f; e = N[e].b; continue; } if (N[e].kind == K_CAST && !N[e].fp) { e = N[e].a; continue; } return 0; }
    return 0;
}
static int numericChar(u64 c) { return c && c < 256 && strchr("0123456789+-.einfaNIFA", (int)c) != 0; }

// ---------------------------------------------------------------- operations
static u32 op(u32 s, u32 w, u8 fp, u64 v) { return s ? s : konst(w, fp, v); }
static int nonFinite(u64 v) { double d = D(v); return !(d - d == 0.0); }
// a condition that was already decided on this path keeps its outcome (also where a forced, rounding-sensitive
// decision differs from what the doubles say) and needs no further event
static u8* DEC; static u32 capDEC;
static u8* decOf(u32 e, int* neg) {
    *neg = 0;
    while (N[e].kind == K_BIN && N[e].op == OP_XOR && N[e].width == 1) {
        u32 x = N[e].a, y = N[e].b;
        if (N[y].kind == K_CONST) { *neg ^= (int)(N[y].val & 1); e = x; } else if (N[x].kind == K_CONST) { *neg ^= (int)(N[x].val & 1); e = y; } else break;
    }
    if (e >= capDEC) { u32 n = nN + 4096; DEC = realloc(DEC, n); memset(DEC + capDEC, 0, n - capDEC); capDEC = n; }
    return &DEC[e];
}
static int decide(u32 expr, int taken, u32 site, const char* fn, int kind) {
    int neg; u8* d = decOf(expr, &neg);
    if (*d) {
        int was = (*d == 2) ^ neg;
        if (was == taken) return taken;
        if (kind == E_BRANCH) { impure = 1; return was; }
    }
    if (nDec < nForced) {
        char f = forced[nDec];
        int ft = f == '1';
        if (f != '-' && ft != taken) { if (kind == E_BRANCH) { taken = ft; impure = 1; } }
    }
    nDec++;
    event(kind, expr, taken, site, fn, 0);
    *decOf(expr, &neg) = (taken ^ neg) ? 2 : 1;
    return taken;
}
static u32 sign_split(u32 s, u64 v, const char* fn, u32 sitebase) { // real mode: fork on the sign of an expression
    if (!s) return 0;
    u32 zero = konst(64, 1, 0);
    double d = D(v);
    u32 c = mk(K_CMP, 0, 1, 2 /*FCMP_OGT*/, s, zero, 64 | 256, d > 0);
    if (decide(c, d > 0, sitebase, fn, E_BRANCH)) return 1;
    c = mk(K_CMP, 0, 1, 4 /*FCMP_OLT*/, s, zero, 64 | 256, d < 0);
    decide(c, d < 0, sitebase + 1, fn, E_BRANCH);
    return 1;
}
u32 sxr_bin(u32 opc, u32 wf, u32 sa, u64 a, u32 sb, u64 b, u64 r, const char* fn) {
    if (!sa && !sb) return 0;
    u32 w = wf & 255; u8 fp = wf >> 8;
    if (fp && realMode) {
        if (nonFinite(a) || nonFinite(b)) {
            if (impure && ((sa && nonFinite(a)) || (sb && nonFinite(b)))) goto build;
            // (finite symbolic) op (inf/nan constant): result is inf/nan/0 up to the sign of the operand
            if (isnan(D(a)) || isnan(D(b)) || opc == OP_FADD || opc == OP_FSUB) return 0;
            if (opc == OP_FDIV && !nonFinite(a)) return 0;  // x / inf = 0
            sign_split(sa, a, fn, 900001); sign_split(sb, b, fn, 900003);
            return 0;
        }
        if (opc == OP_FDIV && sb) {
            u32 zero = konst(64, 1, 0);
            u32 c = mk(K_CMP, 0, 1, 1 /*FCMP_OEQ*/, sb, zero, 64 | 256, D(b) == 0.0);
            int t = decide(c, D(b) == 0.0, 900000, fn, E_BRANCH);
            if (t && !(D(b) == 0.0)) { finish(6); }
            if (t) { sign_split(sa, a, fn, 900005); return 0; }
            if (D(b) == 0.0) goto build;
        }
        if (nonFinite(r) && !impure) { lostEv(sa ? sa : sb, "overflow", fn); return 0; }
    }
build:
    if (!fp) {
        if (fmtBase(sa) || fmtBase(sb)) { lostEv(sa ? sa : sb, "fmt-arith", fn); return 0; }
        if ((opc == OP_UDIV || opc == OP_SDIV || opc == OP_UREM || opc == OP_SREM) && sb) {
            u32 c = mk(K_CMP, 0, 1, 32, sb, konst(w, 0, b), w, 1);
            decide(c, 1, 900010, fn, E_CONC); sb = 0; if (!sa) return 0;
        }
        // trivial identities
        if (!sb && b == 0 && (opc == OP_ADD || opc == OP_SUB || opc == OP_OR || opc == OP_XOR || opc == OP_SHL || opc == OP_LSHR || opc == OP_ASHR)) return sa;
        if (!sa && a == 0 && (opc == OP_ADD || opc == OP_OR || opc == OP_XOR)) return sb;
        if (opc == OP_AND && ((!sb && b == 0) || (!sa && a == 0))) return 0;
        if (opc == OP_AND && !sb && b == mask(w)) return sa;
        if (opc == OP_AND && !sa && a == mask(w)) return sb;
        if (opc == OP_OR && ((!sb && b == mask(w)) || (!sa && a == mask(w)))) return 0;
    }
    (void)fn;
    return mk(K_BIN, fp, w, opc, op(sa, w, fp, a), op(sb, w, fp, b), 0, r);
}
u32 sxr_ovf(u32 o, u32 wf, u32 sa, u64 a, u32 sb, u64 b, u64 r, const char* fn) { (void)o;(void)wf;(void)sa;(void)a;(void)sb;(void)b;(void)r;(void)fn; return 0; }
u32 sxr_cmp(u32 pred, u32 wf, u32 sa, u64 a, u32 sb, u64 b, bool r, const char* fn) {
    if (!sa && !sb) return 0;
    u32 w = wf & 255; u8 fp = wf >> 8;
    if (fp && realMode) {
        int na = nonFinite(a), nb = nonFinite(b);
        if ((na || nb) && !impure) return 0; // finite symbolic vs inf/nan: constant
        if (impure && ((na && !sa) || (nb && !sb))) {
            // recompute with any finite stand-in: a finite real against inf/nan has a fixed outcome
            return 0;
        }
        if (sa == sb) return 0;
    }
    if (!fp) {
        u32 f = fmtBase(sa), g = fmtBase(sb);
        if (f || g) {
            if (f && g) { if (f != g) lostEv(f, "fmt-fmt-cmp", fn); return 0; }
            u64 other = f ? b : a; u32 os = f ? sb : sa;
            if ((pred == 32 || pred == 33) && !os && !numericChar(other & 255)) return 0;
            if ((pred == 32 || pred == 33) && !os && (other & 255) == '.' && (N[f ? f : g].op >> 16)) return 0; // fixed notation: the point is always at the same place from the end, whatever the value
            lostEv(f ? f : g, "fmt-cmp", fn); return 0;
        }
        if (sa == sb) return 0;
        if ((pred == 32 || pred == 33) && !sb && sa && N[sa].kind == K_CAST && N[sa].op == C_ZEXT && N[N[sa].a].width == 1 && b <= 1) {
            u32 x = N[sa].a; int neg = (pred == 32) ^ (b == 1);
            if (!neg) return x;
            return mk(K_BIN, 0, 1, OP_XOR, x, konst(1, 0, 1), 0, r);
        }
    }
    return mk(K_CMP, 0, 1, pred, op(sa, w, fp, a), op(sb, w, fp, b), wf, r);
}
u32 sxr_un(u32 opc, u32 wf, u32 sa, u64 a, u64 r, const char* fn) {
    (void)fn; if (!sa) return 0; (void)a;
    return mk(K_UN, 1, wf & 255, opc, sa, 0, 0, r);
}
void sxr_concretize(u32 s, u64 v, const char* fn, u32 site) {
    if (!s) return;
    if (fmtBase(s)) { lostEv(s, "fmt-conc", fn); return; }
    u32 w = N[s].width;
    u32 c = mk(K_CMP, 0, 1, N[s].fp ? 1 : 32, s, konst(w, N[s].fp, v), w | (N[s].fp << 8), 1);
    decide(c, 1, site, fn, E_CONC);
}
u32 sxr_cast(u32 opc, u32 wi, u32 wo, u32 sa, u64 a, u64 r, const char* fn) {
    (void)a; if (!sa) return 0;
    u32 w = wo & 255; u8 fo = wo >> 8;
    if (opc == C_TRUNC && N[sa].kind == K_CAST && (N[sa].op == C_ZEXT || N[sa].op == C_SEXT) && N[N[sa].a].width == w && !N[sa].fp) return N[sa].a;
    if (opc == C_FPTOSI || opc == C_FPTOUI) {
        u32 n = mk(K_CAST, 0, w, opc, sa, wi, 0, r);
        sxr_concretize(n, r & mask(w), fn, 900020);
        return 0;
    }
    if (opc == C_BITCAST && realMode) { lostEv(sa, "bitcast", fn); return 0; }
    return mk(K_CAST, fo, w, opc, sa, wi, 0, r);
}
u32 sxr_ite(u32 wf, u32 sc, bool c, u32 sa, u64 a, u32 sb, u64 b, const char* fn) {
    u32 w = wf & 255; u8 fp = wf >> 8;
    if (!sc) return c ? sa : sb;
    if (!sa && !sb && a == b) return 0;
    if (sa && sa == sb) return sa;
    if ((fp && realMode && ((!sa && nonFinite(a)) || (!sb && nonFinite(b)))) || (!fp && (fmtBase(sa) || fmtBase(sb)))) {
        // cannot be merged: fork (the concrete direction is kept)
        u32 before = nDec;
        int t = decide(sc, c, 900030, fn, E_CONC); (void)before; (void)t;
        return c ? sa : sb;
    }
    if (w == 1) {
        // boolean selects: and/or forms
        if (!sb && b == 0) return sxr_bin(OP_AND, 1, sc, c, sa, a, c & (a & 1), fn);
        if (!sa && (a & 1) == 1) return sxr_bin(OP_OR, 1, sc, c, sb, b, c | (b & 1), fn);
    }
    return mk(K_ITE, fp, w, 0, sc, op(sa, w, fp, a), op(sb, w, fp, b), c ? a : b);
}
enum { F_EXP = 1, F_POW, F_SQRT, F_COS, F_SIN, F_LOG, F_FABS, F_FLOOR, F_CEIL };
u32 sxr_fn(u32 id, u32 wf, u32 sa, u64 a, u32 sb, u64 b, u64 r, const char* fn) {
    if (!sa && !sb) return 0;
    if (realMode) {
        if (nonFinite(a) || nonFinite(b)) { if (!impure) { if (!isnan(D(a)) && !isnan(D(b))) { sign_split(sa, a, fn, 900041); sign_split(sb, b, fn, 900043);} return 0; } }
        if (id == F_SQRT || id == F_LOG) { // domain fork
            u32 zero = konst(64, 1, 0);
            u32 c = mk(K_CMP, 0, 1, id == F_SQRT ? 4 : 5 /*OLT / OLE*/, sa, zero, 64 | 256, id == F_SQRT ? D(a) < 0 : D(a) <= 0);
            if (decide(c, id == F_SQRT ? D(a) < 0 : D(a) <= 0, 900040, fn, E_BRANCH)) { if (id == F_LOG) sign_split(sa, a, fn, 900047); return 0; }
        }
        if (nonFinite(r) && !impure) {
            if (isnan(D(r))) { lostEv(sa ? sa : sb, "fn-nan", fn); return 0; }
            lostEv(sa ? sa : sb, "fn-overflow", fn); return 0;
        }
    }
    (void)wf;
    return mk(K_FN, 1, 64, id, op(sa, 64, 1, a), op(sb, 64, 1, b), 0, r);
}
bool sxr_branch(u32 s, bool c, const char* fn, u32 site) {
    if (!s) return c;
    if (fmtBase(s)) { lostEv(s, "fmt-branch", fn); return c; }
    return decide(s, c, site, fn, E_BRANCH);
}
void sxr_switch(u32 s, u32 w, u64 v, u32 n, u64* cases, const char* fn, u32 site) {
    if (!s) return;
    v &= mask(w);
    for (u32 i = 0; i < n; ++i) {
        u32 c = sxr_cmp(32, w, s, v, 0, cases[i] & mask(w), v == (cases[i] & mask(w)), fn);
        if (c) decide(c, v == (cases[i] & mask(w)), site, fn, E_CONC);
        if (v == (cases[i] & mask(w))) return;
    }
}
void sxr_lost(u32 s, u64 v, const char* callee, const char* fn) {
    if (!s) return;
    lostEv(s, callee ? callee : "indirect", fn); (void)v;
}
void sxr_va_start(void* ap, u32 gp, u32 fp) {
    (void)gp; (void)fp; sxr_clear(ap, 24);
    struct { u32 gp, fp; char* ov; char* rs; }* v = ap;
    u32 g = v->gp, f = v->fp; char* ov = v->ov;
    for (u32 i = 0; i < sxr_va_n && i < MAXARGS; ++i) {
        char* p;
        if (sxr_va_vals[i]) { if (f < 176) { p = v->rs + f; f += 16; } else { p = ov; ov += 8; } }
        else { if (g < 48) { p = v->rs + g; g += 8; } else { p = ov; ov += 8; } }
        if (sxr_va_sh[i]) sxr_store(p, N[sxr_va_sh[i]].width / 8, sxr_va_sh[i]); else sxr_clear(p, 8);
    }
}

// ---------------------------------------------------------------- harness API
#define ARG(f, i) (sxr_callee == (void*)f ? sxr_args[i] : 0)
#define DONE(f) (sxr_callee = 0, sxr_rettag = (void*)f)
static u64 inputVal(const char* name, u64 dflt) {
    for (u32 i = 0; i < nGiven; ++i) if (!strcmp(given[i].name, name)) return given[i].v;
    return dflt;
}
static u32 newInput(const char* name, u32 type, u32 w, u8 fp, u64 v, u64 lo, u64 hi) {
    init();
    for (u32 i = 0; i < nIN; ++i) if (!strcmp(IN[i].name, name)) return IN[i].node;
    if (nIN == capIN) IN = realloc(IN, sizeof(Input) * (capIN = capIN ? capIN * 2 : 32));
    u32 n = mk(K_INPUT, fp, w, nIN, 0, 0, 0, v);
    memset(&IN[nIN], 0, sizeof(Input));
    snprintf(IN[nIN].name, 96, "%s", name); IN[nIN].node = n; IN[nIN].type = type; IN[nIN].lo = lo; IN[nIN].hi = hi; nIN++;
    return n;
}
double sx_real(const char* name, double lo, double hi) {
    init();
    double d = lo <= 0 && hi >= 0 ? 0.0 : lo;
    u64 v = inputVal(name, B(d));
    if (!(D(v) >= lo)) v = B(lo);
    if (!(D(v) <= hi)) v = B(hi);
    u32 n = newInput(name, 1, 64, 1, v, B(lo), B(hi));
    sxr_ret[0] = n; DONE(sx_real); return D(N[n].val);
}
double sx_fp(const char* name) {
    init(); u64 v = inputVal(name, 0);
    u32 n = newInput(name, 2, 64, 1, v, 0, 0);
    sxr_ret[0] = n; DONE(sx_fp); return D(N[n].val);
}
int sx_int(const char* name, int lo, int hi) {
    init(); u64 v = inputVal(name, (u32)(lo <= 0 && hi >= 0 ? 0 : lo));
    if ((int)v < lo) v = (u32)lo;
    if ((int)v > hi) v = (u32)hi;
    u32 n = newInput(name, 3, 32, 0, v, (u32)lo, (u32)hi);
    sxr_ret[0] = n; DONE(sx_int); return (int)N[n].val;
}
int sx_choice(const char* name, int cnt) {
    init(); u64 v = inputVal(name, 0); if (v >= (u64)cnt) v = 0;
    u32 n = newInput(name, 3, 32, 0, v, 0, (u32)(cnt - 1));
    v = N[n].val;
    for (int k = 0; k < cnt - 1; ++k) {
        u32 c = mk(K_CMP, 0, 1, 32, n, konst(32, 0, k), 32, (u64)k == v);
        decide(c, (u64)k == v, k, name, E_CONC);
        if ((u64)k == v) break;
    }
    sxr_ret[0] = 0; DONE(sx_choice); return (int)v;
}
int sx_byte(const char* name) {
    init(); u64 v = inputVal(name, 'a') & 255; if (!v) v = 'a';
    u32 n = newInput(name, 4, 8, 0, v, 1, 255);
    sxr_ret[0] = mk(K_CAST, 0, 32, C_ZEXT, n, 8, 0, v); DONE(sx_byte); return (int)v;
}
bool sx_bool(const char* name) {
    init(); u64 v = inputVal(name, 0) & 1;
    u32 n = newInput(name, 5, 1, 0, v, 0, 1);
    sxr_ret[0] = n; DONE(sx_bool); return v;
}
void sx_assume(bool c) {
    init(); u32 s = ARG(sx_assume, 0);
    if (s) event(E_ASSUME, s, c, 0, "", 0);
    DONE(sx_assume);
    if (!c && !impure) { if (!s) event(E_ASSUME, 0, 0, 0, "", 0); finish(2); }
}
void sx_check(bool c, const char* label) {
    init(); u32 s = ARG(sx_check, 0);
    event(E_CHECK, s, c, 0, label, 0);
    DONE(sx_check);
}
void sx_reach(const char* label) { init(); event(E_REACH, 0, 1, 0, label, 0); DONE(sx_reach); }
void sx_note(const char* label, double v) { (void)label; (void)v; DONE(sx_note); }
bool sx_is_real_mode(void) { init(); sxr_ret[0] = 0; DONE(sx_is_real_mode); return realMode; }

// services for the models (they are ordinary externals: shadows arrive in sxr_args)
bool sx_sym_double(double v) { (void)v; u32 s = ARG(sx_sym_double, 0); sxr_ret[0] = 0; DONE(sx_sym_double); return s != 0; }
void sx_paint_fmt(char* text, u64 len, double v, int fixed) {
    u32 s = ARG(sx_paint_fmt, 1);
    // scalar args: len, v, fixed
    if (s) for (u64 i = 0; i < len; ++i) {
        u32 n = mk(K_FMT, 0, 8, (u32)i | (fixed ? 65536u : 0), s, (u32)len, 0, (u8)text[i]);
        putSh((u64)(text + i), n);
    }
    (void)v; DONE(sx_paint_fmt);
}
// FMT queries on one character: returns position k+1 (0 = not FMT); *len, *id set
int sx_fmt_info(int ch, int* len, int* id) {
    (void)ch; u32 s = fmtBase(ARG(sx_fmt_info, 0)); sxr_ret[0] = 0; DONE(sx_fmt_info);
    if (!s) return 0;
    *len = (int)N[s].b; *id = (int)N[s].a; return (int)(N[s].op & 65535) + 1;
}
double sx_rt(int id, double value) {
    u32 n = mk(K_RT, 1, 64, 0, (u32)id, 0, 0, B(value));
    sxr_ret[0] = n; DONE(sx_rt); return value;
}
int sx_conc_int(int v) {
    u32 s = ARG(sx_conc_int, 0); if (s) sxr_concretize(s, (u32)v, "sx_conc_int", 0);
    sxr_ret[0] = 0; DONE(sx_conc_int); return v;
}
long sx_conc_long(long v) {
    u32 s = ARG(sx_conc_long, 0); if (s) sxr_concretize(s, (u64)v, "sx_conc_long", 0);
    sxr_ret[0] = 0; DONE(sx_conc_long); return v;
}
int sx_drop_int(int v) { sxr_ret[0] = 0; DONE(sx_drop_int); return v; }
double sx_drop_double(double v) { sxr_ret[0] = 0; DONE(sx_drop_double); return v; }
void sx_model_lost(const char* what) { lostEv(0, what, "model"); DONE(sx_model_lost); }

typedef struct Fn { struct Fn* next; const char* name; u32 seen; } Fn;
static Fn* fns;
void sxr_enter(Fn* f) { if (!f->seen) { f->seen = 1; f->next = fns; fns = f; } }
static void wr(FILE* f, const void* p, size_t n) { fwrite(p, 1, n, f); }
static void finish(int status) {
    static int once; if (once) _exit(status); once = 1;
    if (tracePath) {
        FILE* f = fopen(tracePath, "wb");
        if (f) {
            u32 hdr[8] = {0x53585431, (u32)status, nN, nE, nIN, nSTR, (u32)impure, nDec};
            wr(f, hdr, sizeof hdr);
            wr(f, N, sizeof(Node) * nN); wr(f, E, sizeof(Event) * nE); wr(f, IN, sizeof(Input) * nIN);
            for (u32 i = 0; i < nSTR; ++i) { u32 l = strlen(STR[i]); wr(f, &l, 4); wr(f, STR[i], l); }
            for (Fn* x = fns; x; x = x->next) wr(f, x->name, strlen(x->name) + 1);
            fclose(f);
        }
    }
    _exit(status);
}
void sx_finish(int status) { finish(status); }
