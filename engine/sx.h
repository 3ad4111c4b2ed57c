// Harness API.  The same harness source is linked (a) with the instrumented build (sxrt.c) and
// (b) with a plain g++ build of /repo (sxplain.c) that replays concrete counterexamples.
#ifndef SX_H
#define SX_H
#ifdef __cplusplus
extern "C" {
#endif
double sx_real(const char* name, double lo, double hi); /* finite double in [lo,hi] */
double sx_fp(const char* name);                         /* any double (nan/inf included): FP mode only */
int sx_int(const char* name, int lo, int hi);           /* symbolic 32-bit int in [lo,hi] */
int sx_choice(const char* name, int n);                 /* symbolic in [0,n), forked into a concrete value */
int sx_byte(const char* name);                          /* symbolic byte, 1..255 */
bool sx_bool(const char* name);                         /* symbolic bool (not forked) */
void sx_assume(bool c);
void sx_check(bool c, const char* label);
void sx_reach(const char* label); /* reachability witness */
void sx_note(const char* label, double v); /* printed on replay only */
bool sx_is_real_mode(void);
#ifdef __cplusplus
}
#endif
#endif
