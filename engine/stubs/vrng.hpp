// Stand-ins for the random distributions: the k-th draw is a fresh symbolic value with
// the support of the distribution, transformed by the distribution's parameters.  The
// same headers are used in the symbolic and in the native replay build; the wrapper class
// of the code under test stays real.
#ifndef VERIF_VRNG_HPP
#define VERIF_VRNG_HPP
#include "symrt.h"
#include <cmath>
#include <ostream>
#include <istream>
#include <string>
#include <vector>
namespace vrng {
enum kind { NORMAL, UNIFORM, UNIFORM_INT, STUDENT_T, CHI2, GAMMA, EXPONENTIAL, LOGNORMAL, ARMA_U, ARMA_N };
struct rec { kind k; double p1, p2; double z; double value; int ivalue; };   // z: the standardised draw
inline std::vector<rec> &log() { static std::vector<rec> l; return l; }
inline int &count() { static int c = 0; return c; }
inline void reset() { log().clear(); }
inline int &limit() { static int l = 0; return l; }       // most draws followed (0: no limit)
inline std::string name(const char *b) { if (limit() && count() >= limit()) symrt_cut(); return std::string(b) + std::to_string(count()++); }
// values a harness wants the next normal draws to take (empty: fresh symbolic draws)
inline std::vector<double> &feed() { static std::vector<double> f; return f; }
inline double unit(const char *b) { std::string n = name(b); double u = symrt_var(n.c_str()); symrt_assume_rel(1, 0.0, u); symrt_assume_rel(0, u, 1.0); return u; }
inline double positive(const char *b) { std::string n = name(b); double u = symrt_var(n.c_str()); symrt_assume_rel(0, 0.0, u); return u; }
inline double real(const char *b) { std::string n = name(b); return symrt_var(n.c_str()); }
inline double note(kind k, double p1, double p2, double z, double v) { rec r = {k, p1, p2, z, v, 0}; log().push_back(r); return v; }
inline double normal(double m, double s) {
  double z;
  if (!feed().empty()) { z = feed().front(); feed().erase(feed().begin()); } else z = real("rn");
  return note(NORMAL, m, s, z, m + s * z); }
inline double uniform(double a, double b) { double u = unit("ru"); return note(UNIFORM, a, b, u, a + (b - a) * u); }
inline int uniform_int(double fa, double fb) {
  int a = (int)fa, b = (int)fb;
  int v = a;
  std::string n = name("ri");
  while (v < b && symrt_branch((n + "_" + std::to_string(v - a)).c_str())) v++;
  rec r = {UNIFORM_INT, (double)a, (double)b, 0, (double)v, v};
  log().push_back(r);
  return v;
}
inline std::vector<double> &feedt() { static std::vector<double> f; return f; }     // the same for Student t draws
inline double student(double n) {
  double z;
  if (!feedt().empty()) { z = feedt().front(); feedt().erase(feedt().begin()); } else z = real("rt");
  return note(STUDENT_T, n, 0, z, z); }
inline double chi2(double n) { double z = positive("rc"); return note(CHI2, n, 0, z, z); }
inline double gamma(double a, double b) { double z = positive("rg"); return note(GAMMA, a, b, z, b * z); }
inline double expo(double l) { double z = positive("re"); return note(EXPONENTIAL, l, 0, z, z / l); }
inline double lognormal(double m, double s) { double z = real("rl"); return note(LOGNORMAL, m, s, z, std::exp(m + s * z)); }
}
#define VRNG_TWO(NAME, D1, D2, CALL, RES)                                                      \
  namespace boost { namespace random {                                                         \
  template <class T = RES> class NAME {                                                        \
  public:                                                                                      \
    typedef T input_type; typedef T result_type;                                               \
    class param_type { public: typedef NAME distribution_type; double p1, p2; explicit param_type(T a = D1, T b = D2) : p1(a), p2(b) {} }; \
    explicit NAME(T a = D1, T b = D2) : p_(a, b) {}                                            \
    explicit NAME(const param_type &p) : p_(p) {}                                              \
    void reset() {}                                                                            \
    param_type param() const { return p_; }                                                    \
    void param(const param_type &p) { p_ = p; }                                                \
    template <class E> T operator()(E &) { return CALL(p_.p1, p_.p2); }                        \
    template <class E> T operator()(E &, const param_type &q) { return CALL(q.p1, q.p2); }     \
  private: param_type p_; }; } using random::NAME; }
#define VRNG_ONE(NAME, D1, CALL, RES)                                                          \
  namespace boost { namespace random {                                                         \
  template <class T = RES> class NAME {                                                        \
  public:                                                                                      \
    typedef T input_type; typedef T result_type;                                               \
    class param_type { public: typedef NAME distribution_type; double p1; explicit param_type(T a = D1) : p1(a) {} }; \
    explicit NAME(T a = D1) : p_(a) {}                                                         \
    explicit NAME(const param_type &p) : p_(p) {}                                              \
    void reset() {}                                                                            \
    param_type param() const { return p_; }                                                    \
    void param(const param_type &p) { p_ = p; }                                                \
    template <class E> T operator()(E &) { return CALL(p_.p1); }                               \
    template <class E> T operator()(E &, const param_type &q) { return CALL(q.p1); }           \
  private: param_type p_; }; } using random::NAME; }
VRNG_TWO(normal_distribution, 0.0, 1.0, vrng::normal, double)
VRNG_TWO(uniform_real_distribution, 0.0, 1.0, vrng::uniform, double)
VRNG_TWO(uniform_real, 0.0, 1.0, vrng::uniform, double)
VRNG_TWO(lognormal_distribution, 0.0, 1.0, vrng::lognormal, double)
VRNG_TWO(gamma_distribution, 1.0, 1.0, vrng::gamma, double)
VRNG_TWO(uniform_int_distribution, 0, 9, vrng::uniform_int, int)
VRNG_TWO(uniform_int, 0, 9, vrng::uniform_int, int)
VRNG_ONE(student_t_distribution, 1.0, vrng::student, double)
VRNG_ONE(chi_squared_distribution, 1.0, vrng::chi2, double)
VRNG_ONE(exponential_distribution, 1.0, vrng::expo, double)
namespace boost { namespace random {
template <class RealType = double> class uniform_01 {
public:
  typedef RealType input_type; typedef RealType result_type;
  void reset() {}
  template <class E> result_type operator()(E &) { return vrng::uniform(0.0, 1.0); }
};
} using random::uniform_01; }
#endif
