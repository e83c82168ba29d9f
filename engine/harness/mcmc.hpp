// A parameter with a log-density that is any quadratic of its value, not finite beyond a
// threshold of the first coordinate: an ordinary function of the value, so nothing depends on
// how or how often the steps evaluate it.
#ifndef VERIF_MCMC_HPP
#define VERIF_MCMC_HPP
#include <random.hpp>
#include <parameters.hpp>
#include <proposals.hpp>
#include <steps.hpp>
#include <samplers.hpp>
#include <limits>
#include <vrng.hpp>
#include "spec.hpp"
namespace mcmc {
using namespace vh;
struct Density {
  int d, kind;                       // kind: 0 finite everywhere, 1 -inf, 2 NaN, 3 +inf beyond the threshold
  std::vector<double> lin, quad;
  double c, cut;
  Density(int d_, int kind_) : d(d_), kind(kind_), c(var("L0")), cut(0.0) {
    for (int i = 0; i < d; i++) { lin.push_back(var(nm("La", i))); quad.push_back(var(nm("Lb", i))); }
    if (kind) cut = var("cut");
  }
  bool inside(double v0) const { return !kind || v0 < cut; }
  double bad() const { return kind == 2 ? std::numeric_limits<double>::quiet_NaN() : kind == 3 ? std::numeric_limits<double>::infinity() : -std::numeric_limits<double>::infinity(); }
  double operator()(const arma::vec &v) const {
    if (!inside(v(0))) return bad();
    double s = c;
    for (int i = 0; i < d; i++) s = s + lin[i] * v(i) + quad[i] * v(i) * v(i);
    return s;
  }
  double operator()(double v) const { if (!inside(v)) return bad(); return c + lin[0] * v + quad[0] * v * v; }
};
inline arma::vec value(const char *b, int d) { arma::vec v(d); for (int i = 0; i < d; i++) v(i) = var(nm(b, i)); return v; }
class Par : public Parameter<arma::vec> {
public:
  const Density *L;
  Par(const Density *l, bool track, std::string label, double temperature) : Parameter<arma::vec>(track, label, temperature), L(l) { value_.zeros(l->d); }
  arma::vec StartingValue() { arma::vec v(L->d); for (int i = 0; i < L->d; i++) v(i) = RandGen.normal(0.0, 1.0); if (L->kind) symrt_assume_rel(0, v(0), L->cut); return v; }
  arma::vec SetStartingValue(arma::vec init) { return init; }
  double LogDensity(arma::vec v) { return (*L)(v); }
};
class Par1 : public Parameter<double> {
public:
  const Density *L;
  Par1(const Density *l, bool track, std::string label, double temperature) : Parameter<double>(track, label, temperature), L(l) { value_ = 0.0; }
  double StartingValue() { return RandGen.normal(0.0, 1.0); }
  double SetStartingValue(double init) { return init; }
  double LogDensity(double v) { return (*L)(v); }
};
// a start with finite density
template <class P> void start(P &p, const arma::vec &v, const Density &L) { if (L.kind) lt(v(0), L.cut); p.Save(v); }
// the uniform draws made since the mark
inline std::vector<double> uniforms(size_t mark) {
  std::vector<double> out;
  for (size_t i = mark; i < vrng::log().size(); i++) if (vrng::log()[i].k == vrng::UNIFORM) {
    ok("unit", vrng::log()[i].p1 == 0.0 && vrng::log()[i].p2 == 1.0);
    out.push_back(vrng::log()[i].value);
  }
  return out;
}
// Metropolis-Hastings decision for log-ratio a (finite), with the draws made
inline bool decide(const std::vector<double> &u, double a, bool accepted) {
  ok("draws", u.size() <= 1);
  if (u.empty()) { if (accepted) leq("certain", 0.0, a); ok("nodraw", accepted); return true; }
  return u[0] < 1.0 && u[0] < std::exp(a);
}
inline bool same(const arma::vec &a, const arma::vec &b) { for (size_t i = 0; i < a.n_elem; i++) if (!symrt_same(a(i), b(i))) return false; return true; }
}
#endif
