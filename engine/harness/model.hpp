// Symbolic data sets and the model classes built on them.
#ifndef VERIF_MODEL_HPP
#define VERIF_MODEL_HPP
#include <random.hpp>
#include <carpack.hpp>
#include <memory>
#include "spec.hpp"
namespace model {
typedef std::vector<double> sv;
struct Data { sv t, y, e; };
// n observations at increasing times; error bars nonnegative (positive with ep)
inline Data data(int n, bool ep = false) {
  Data d;
  double tt = vh::var("t0");
  for (int i = 0; i < n; i++) {
    if (i) tt = tt + vh::pos(vh::nm("dt", i));
    d.t.push_back(tt);
    d.y.push_back(vh::var(vh::nm("y", i)));
    d.e.push_back(ep ? vh::pos(vh::nm("e", i)) : vh::nonneg(vh::nm("e", i)));
  }
  return d;
}
// Parameters of p-th order factors: npair quadratic factors with complex roots, then quadratic
// factors with two real roots, then (odd p) one linear factor.  Every real parameter vector has
// such a form (with touch: double real roots included).  Appends the logarithms to theta and the roots to r.
inline void factors(const char *b, int p, int npair, sv &theta, spec::cvec &r, bool touch = false) {
  for (int i = 0; i < p / 2; i++) {
    if (i < npair) {
      double a = vh::pos(vh::nm((std::string(b) + "a").c_str(), i)), w = touch ? vh::nonneg(vh::nm((std::string(b) + "b").c_str(), i)) : vh::pos(vh::nm((std::string(b) + "b").c_str(), i));
      theta.push_back(std::log(a * a + w * w));
      theta.push_back(std::log(2.0 * a));
      r.push_back(spec::cx(-a, -w));
      r.push_back(spec::cx(-a, w));
    } else {
      double x = vh::pos(vh::nm((std::string(b) + "r").c_str(), 2 * i)), d = vh::pos(vh::nm((std::string(b) + "d").c_str(), 2 * i));
      theta.push_back(std::log(x * (x + d)));
      theta.push_back(std::log(x + x + d));
      r.push_back(spec::cx(-x - d, 0.0));
      r.push_back(spec::cx(-x, 0.0));
    }
  }
  if (p % 2) {
    double x = vh::pos(vh::nm((std::string(b) + "r").c_str(), p - 1));
    theta.push_back(std::log(x));
    r.push_back(spec::cx(-x, 0.0));
  }
}
// all roots distinct
inline void distinct(const spec::cvec &r) {
  for (size_t i = 0; i < r.size(); i++) for (size_t j = 0; j < i; j++) {
    double a = r[i].real() - r[j].real(), b = r[i].imag() - r[j].imag();
    vh::lt(0.0, a * a + b * b);
  }
}
inline arma::vec av(const sv &x) { arma::vec v(x.size()); for (size_t i = 0; i < x.size(); i++) v(i) = x[i]; return v; }
// prod (1 - s/r_k), coefficients of 1, s, s^2, ...
inline sv mapoly(const spec::cvec &r) {
  std::vector<spec::cx> c(1, spec::cx(1.0, 0.0));
  for (size_t k = 0; k < r.size(); k++) {
    std::vector<spec::cx> n(c.size() + 1, spec::cx(0.0, 0.0));
    for (size_t i = 0; i < c.size(); i++) { n[i] = n[i] + c[i]; n[i + 1] = n[i + 1] - c[i] / r[k]; }
    c = n;
  }
  sv out;
  for (auto &x : c) out.push_back(x.real());
  return out;
}
// Gaussian log-likelihood without the constant, mean mu and error bars scaled by sqrt(scale)
inline double loglik(const Data &d, double mu, double scale, const spec::mat &cov) {
  size_t n = d.t.size();
  spec::mat K(cov);
  spec::vec y(n), m, v;
  for (size_t i = 0; i < n; i++) { K[i][i] = K[i][i] + scale * d.e[i] * d.e[i]; y[i] = d.y[i] - mu; }
  spec::innovations(K, y, m, v);
  double s = 0.0;
  for (size_t i = 0; i < n; i++) s = s - 0.5 * std::log(v[i]) - 0.5 * (y[i] - m[i]) * (y[i] - m[i]) / v[i];
  return s;
}
inline double scaleprior(double s) { return -25.0 / s - 26.0 * std::log(s); }
// covariance matrix of a process with stationary deviation sd
inline spec::mat carma(const Data &d, const spec::cvec &r, const sv &ma, double sd) {
  size_t n = d.t.size();
  spec::mat K(n, spec::vec(n));
  double g0 = spec::autocov(r, ma, 1.0, 0.0, true);
  for (size_t i = 0; i < n; i++) for (size_t j = 0; j < n; j++)
    K[i][j] = i == j ? sd * sd : sd * sd * spec::autocov(r, ma, 1.0, i > j ? d.t[i] - d.t[j] : d.t[j] - d.t[i]) / g0;
  return K;
}
inline spec::mat ou(const Data &d, double omega, double sd) {
  size_t n = d.t.size();
  spec::mat K(n, spec::vec(n));
  for (size_t i = 0; i < n; i++) for (size_t j = 0; j < n; j++)
    K[i][j] = i == j ? sd * sd : sd * sd * std::exp(-omega * (i > j ? d.t[i] - d.t[j] : d.t[j] - d.t[i]));
  return K;
}
// finite and not a symbolic impossibility
inline bool finite(double x) { return arma::is_finite(x); }
}
#endif
