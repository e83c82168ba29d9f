// Convenience layer for harnesses (compiled both instrumented and natively).
#ifndef VERIF_VH_HPP
#define VERIF_VH_HPP
#include "symrt.h"
#include <string>
#include <vector>
#include <complex>
#include <cstdlib>
#include <cstdio>
namespace vh {
// size or mode of this configuration (a bound, not an input)
inline int par(const char *n) { const char *v = getenv((std::string("H_") + n).c_str()); if (!v) { fprintf(stderr, "no %s\n", n); abort(); } return atoi(v); }
inline int par(const char *n, int d) { const char *v = getenv((std::string("H_") + n).c_str()); return v ? atoi(v) : d; }
inline std::string nm(const char *b, int i) { return std::string(b) + std::to_string(i); }
inline double var(const std::string &n) { return symrt_var(n.c_str()); }
inline void lt(double a, double b) { symrt_assume_rel(0, a, b); }
inline void le(double a, double b) { symrt_assume_rel(1, a, b); }
inline void ne(double a, double b) { symrt_assume_rel(3, a, b); }
inline double pos(const std::string &n) { double x = var(n); lt(0.0, x); return x; }
inline double nonneg(const std::string &n) { double x = var(n); le(0.0, x); return x; }
inline double in(const std::string &n, double lo, double hi) { double x = var(n); le(lo, x); le(x, hi); return x; }
inline void eq(const std::string &l, double a, double b) { symrt_check_eq(l.c_str(), a, b); }
inline void ok(const std::string &l, bool c) { symrt_check(l.c_str(), c); }
inline void less(const std::string &l, double a, double b) { symrt_check_rel(l.c_str(), 0, a, b); }
inline void leq(const std::string &l, double a, double b) { symrt_check_rel(l.c_str(), 1, a, b); }
inline void obs(const std::string &l, double x) { symrt_observe(l.c_str(), x); }
inline void reach(const std::string &l) { symrt_reach(l.c_str()); }
}
#endif
