// Reference computations used by the harnesses: textbook Gaussian conditioning and
// process covariances written independently of the code under test.
#ifndef VERIF_SPEC_HPP
#define VERIF_SPEC_HPP
#include "vh.hpp"
#include <armadillo>
#include <complex>
#include <cmath>
namespace spec {
typedef std::vector<double> vec;
typedef std::vector<vec> mat;

// Sequential conditioning of a zero-mean Gaussian vector with covariance K (already
// including measurement noise): mean[i] = E[y_i | y_0..y_{i-1}], var[i] likewise.
inline void innovations(const mat &K, const vec &y, vec &mean, vec &var) {
  size_t n = y.size();
  mat L(n, vec(n, 0.0));           // unit lower triangular factor, K = L D L'
  vec d(n, 0.0), w(n, 0.0);
  mean.assign(n, 0.0);
  var.assign(n, 0.0);
  for (size_t i = 0; i < n; i++) {
    for (size_t j = 0; j < i; j++) {
      double s = K[i][j];
      for (size_t k = 0; k < j; k++) s = s - L[i][k] * d[k] * L[j][k];
      L[i][j] = s / d[j];
    }
    double s = K[i][i], m = 0.0;
    for (size_t k = 0; k < i; k++) { s = s - L[i][k] * L[i][k] * d[k]; m = m + L[i][k] * w[k]; }
    d[i] = s;
    w[i] = y[i] - m;
    mean[i] = m;
    var[i] = s;
  }
}
// Conditional mean and variance of x given y ~ N(0, K), cov(x,y)=k, var(x)=kxx.
inline void condition(const mat &K, const vec &k, double kxx, const vec &y, double &m, double &v) {
  size_t n = y.size();
  mat B(n + 1, vec(n + 1, 0.0));
  for (size_t i = 0; i < n; i++) { for (size_t j = 0; j < n; j++) B[i][j] = K[i][j]; B[n][i] = k[i]; B[i][n] = k[i]; }
  B[n][n] = kxx;
  vec yy(y), mm, vv;
  yy.push_back(0.0);
  innovations(B, yy, mm, vv);
  m = mm[n];
  v = vv[n];
}
typedef std::complex<double> cx;
typedef std::vector<cx> cvec;
// Autocovariance of a stationary CARMA process at lag tau >= 0 (Brockwell; Kelly et al. 2014):
// sigma^2 sum_k beta(r_k) beta(-r_k) e^{r_k tau} / (-2 Re(r_k) prod_{l != k} (r_l - r_k)(conj(r_l) + r_k))
inline cx polyval(const vec &b, cx s) { cx r = 0.0; for (size_t i = b.size(); i-- > 0;) r = r * s + b[i]; return r; }
inline double autocov(const cvec &roots, const vec &beta, double sigsqr, double tau, bool lag0 = false) {
  size_t p = roots.size();
  cx tot = 0.0;
  for (size_t k = 0; k < p; k++) {
    cx den = -2.0 * roots[k].real();
    for (size_t l = 0; l < p; l++) if (l != k) den = den * (roots[l] - roots[k]) * (std::conj(roots[l]) + roots[k]);
    cx num = polyval(beta, roots[k]) * polyval(beta, -roots[k]);
    if (!lag0) num = num * std::exp(roots[k] * tau);
    tot = tot + num / den;
  }
  return sigsqr * tot.real();
}
// Time step i: symbolic, or with UNIT a given small multiple of one symbolic unit.
inline double step(int i) {
  if (!vh::par("UNIT", 0)) return vh::pos(vh::nm("dt", i));
  static const double k[] = {1, 2, 1, 3, 1, 1, 2, 1};
  return k[i % 8] * vh::pos("unit");
}
// Symbolic roots: NC conjugate pairs -a +- i b, then NR real roots -r, all distinct.
// With NUM the roots are given (small integers): for orders whose symbolic roots are out of reach.
inline cvec roots(int p, int npair, arma::cx_vec *out = nullptr) {
  cvec r;
  vec re;
  if (vh::par("NUM", 0)) {
    for (int k = 0; k < npair; k++) { double x = symrt_given(1.0 + k); r.push_back(cx(-x, x)); r.push_back(cx(-x, -x)); }
    for (int k = 2 * npair; k < p; k++) r.push_back(cx(-symrt_given(1.0 + k - 2 * npair), 0.0));
    if (out) { out->set_size(p); for (int k = 0; k < p; k++) (*out)(k) = r[k]; }
    return r;
  }
  for (int k = 0; k < npair; k++) {
    double a = vh::pos(vh::nm("a", k)), b = vh::pos(vh::nm("b", k));
    r.push_back(cx(-a, b));
    r.push_back(cx(-a, -b));
    for (int j = 0; j < k; j++) vh::lt(0.0, (r[2 * j].real() + a) * (r[2 * j].real() + a) + (r[2 * j].imag() - b) * (r[2 * j].imag() - b));
  }
  for (int k = 2 * npair; k < p; k++) {
    double x = vh::pos(vh::nm("r", k));
    for (size_t j = 0; j < re.size(); j++) vh::ne(re[j], x);
    re.push_back(x);
    r.push_back(cx(-x, 0.0));
  }
  if (out) { out->set_size(p); for (int k = 0; k < p; k++) (*out)(k) = r[k]; }
  return r;
}
}
#endif
