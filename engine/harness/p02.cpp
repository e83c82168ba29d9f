// CARMA(p,q) filter against sequential Gaussian conditioning with the CARMA autocovariance.
#include "kf.hpp"
#include "spec.hpp"
using namespace vh;
void harness() {
  const int N = par("N"), p = par("P"), q = par("Q"), npair = par("C");
  arma::vec t(N), y(N), e(N);
  double tt = var("t0");
  for (int i = 0; i < N; i++) {
    if (i) tt = tt + spec::step(i);
    t(i) = tt;
    y(i) = var(nm("y", i));
    e(i) = nonneg(nm("e", i));
  }
  double sigsqr = pos("sigsqr");
  arma::cx_vec omega;
  spec::cvec roots = spec::roots(p, npair, &omega);
  arma::vec ma = arma::zeros<arma::vec>(par("PAD") ? p : q + 1);
  spec::vec beta(1, 1.0);
  ma(0) = 1.0;
  for (int k = 1; k <= q; k++) { ma(k) = var(nm("beta", k)); beta.push_back(ma(k)); }
  auto kfp = kf::makep(par("HOW"), t, y, e, sigsqr, omega, ma);
  KalmanFilterp &kf = *kfp;
  kf.Filter();
  spec::mat K(N, spec::vec(N));
  spec::vec yy(N), m, v;
  for (int i = 0; i < N; i++) {
    yy[i] = y(i);
    for (int j = 0; j <= i; j++) K[i][j] = K[j][i] = spec::autocov(roots, beta, sigsqr, t(i) - t(j), i == j);
    K[i][i] = K[i][i] + e(i) * e(i);
  }
  spec::innovations(K, yy, m, v);
  for (int i = 0; i < N; i++) {
    obs(nm("mean", i), kf.mean(i));
    obs(nm("var", i), kf.var(i));
    eq(nm("mean", i), kf.mean(i), m[i]);
    eq(nm("var", i), kf.var(i), v[i]);
  }
  reach("end");
}
