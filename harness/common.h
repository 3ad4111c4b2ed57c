#ifndef SX_COMMON_H
#define SX_COMMON_H
#include <cmath>
#include <cstdio>
#include <memory>
#include <string>
#include <vector>
#include "fuzzylite/Headers.h"
#include "sx.h"
#include "case.h"
using fl::Op;
using fl::scalar;
typedef std::string S;
// branch-free helpers (no path split)
static inline bool near(scalar a, scalar b, scalar tol) { return std::fabs(a - b) <= tol; }
static inline bool between(scalar x, scalar lo, scalar hi) { return (x >= lo) & (x <= hi); }
static inline bool same(scalar a, scalar b) { return (a == b) | ((a != a) & (b != b)); }
// x is exactly c or at a distance from c outside the library's comparison tolerance (1e-6)
static inline bool crispy(scalar x, scalar c) { return (x == c) | (std::fabs(x - c) > 4e-6); }
static inline void crisp(scalar x, scalar c) { sx_assume(crispy(x, c)); }
static inline scalar mn(scalar a, scalar b) { return a < b ? a : b; }
static inline scalar mx(scalar a, scalar b) { return a > b ? a : b; }
#define CHECK(c) sx_check((c), #c)
#define CHECKL(c, l) sx_check((c), l)
#endif
