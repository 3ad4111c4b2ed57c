// Replay runtime: the harness runs on a plain build with concrete inputs.
// SX_INPUTS: file of "name hexbits".  Failed checks are printed as "FAIL <label>".
#include <math.h>
#include <stdbool.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
typedef uint64_t u64; typedef uint32_t u32;
static struct { char name[96]; u64 v; } g[4096]; static int n = -1;
int sx_failed;
static void init(void) {
    if (n >= 0) return; n = 0;
    const char* in = getenv("SX_INPUTS"); if (!in) return;
    FILE* f = fopen(in, "r"); if (!f) return;
    unsigned long long v; while (n < 4096 && fscanf(f, "%95s %llx", g[n].name, &v) == 2) g[n++].v = v;
    fclose(f);
}
static u64 get(const char* nm, u64 d) { init(); for (int i = 0; i < n; ++i) if (!strcmp(g[i].name, nm)) return g[i].v; return d; }
static double D(u64 v) { double d; memcpy(&d, &v, 8); return d; }
static u64 B(double d) { u64 v; memcpy(&v, &d, 8); return v; }
static int verbose(void) { static int v = -1; if (v < 0) v = getenv("SX_VERBOSE") != 0; return v; }
double sx_real(const char* nm, double lo, double hi) {
    double d = D(get(nm, B(lo <= 0 && hi >= 0 ? 0.0 : lo)));
    if (!(d >= lo)) d = lo; if (!(d <= hi)) d = hi;
    if (verbose()) printf("input %s = %.17g\n", nm, d);
    return d;
}
double sx_fp(const char* nm) { double d = D(get(nm, 0)); if (verbose()) printf("input %s = %.17g\n", nm, d); return d; }
int sx_int(const char* nm, int lo, int hi) { int v = (int)get(nm, (u32)(lo <= 0 && hi >= 0 ? 0 : lo)); if (v < lo) v = lo; if (v > hi) v = hi; if (verbose()) printf("input %s = %d\n", nm, v); return v; }
int sx_choice(const char* nm, int c) { u64 v = get(nm, 0); if (v >= (u64)c) v = 0; if (verbose()) printf("input %s = %d\n", nm, (int)v); return (int)v; }
int sx_byte(const char* nm) { int v = get(nm, 'a') & 255; if (!v) v = 'a'; if (verbose()) printf("input %s = 0x%02x\n", nm, v); return v; }
bool sx_bool(const char* nm) { bool v = get(nm, 0) & 1; if (verbose()) printf("input %s = %d\n", nm, (int)v); return v; }
void sx_assume(bool c) { if (!c) { printf("ASSUMPTION-FALSE\n"); fflush(stdout); exit(sx_failed ? 1 : 2); } }
void sx_check(bool c, const char* l) { if (!c) { printf("FAIL %s\n", l); fflush(stdout); sx_failed = 1; } else if (verbose()) printf("ok   %s\n", l); }
void sx_reach(const char* l) { (void)l; }
void sx_note(const char* l, double v) { if (verbose()) printf("note %s = %.17g\n", l, v); }
bool sx_is_real_mode(void) { return getenv("SX_MODE") && !strcmp(getenv("SX_MODE"), "real"); }
void sx_finish(int st) { fflush(stdout); if (st == 3) { printf("FAIL uncaught-exception\n"); sx_failed = 1; } exit(sx_failed ? 1 : 0); }
