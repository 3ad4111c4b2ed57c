#ifndef SX_CASE_H
#define SX_CASE_H
// CASE(name, mode, nq, nt, opts): mode "real" or "fp"; sub-cases 0..nq-1 run in the quick tier, 0..nt-1 in the
// thorough tier (SUB is the index); opts: space separated key=value for the explorer.
struct Case { const char *name, *mode; int nq, nt; const char* opts; void (*fn)(); Case* next;
    Case(const char* n, const char* m, int q, int t, const char* o, void (*f)()); };
extern int SUB;
extern bool THOROUGH;
#define CASE(id, mode, nq, nt, opts) static void case_##id(); static Case reg_##id(#id, mode, nq, nt, opts, &case_##id); static void case_##id()
#endif
