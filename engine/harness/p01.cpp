// CAR(1) filter against sequential Gaussian conditioning.
#include "kf.hpp"
#include "spec.hpp"
using namespace vh;
void harness() {
  const int N = par("N");
  arma::vec t(N), y(N), e(N);
  double tt = var("t0");
  for (int i = 0; i < N; i++) {
    if (i) tt = tt + pos(nm("dt", i));
    t(i) = tt;
    y(i) = var(nm("y", i));
    e(i) = nonneg(nm("e", i));
  }
  double omega = pos("omega"), sigsqr = pos("sigsqr");
  auto kfp = kf::make1(par("HOW"), t, y, e, sigsqr, omega);
  KalmanFilter1 &kf = *kfp;
  kf.Filter();
  spec::mat K(N, spec::vec(N));
  spec::vec yy(N), m, v;
  for (int i = 0; i < N; i++) {
    yy[i] = y(i);
    for (int j = 0; j < N; j++) {
      double lag = i > j ? t(i) - t(j) : t(j) - t(i);
      K[i][j] = sigsqr / (2.0 * omega) * std::exp(-omega * lag);
    }
    K[i][i] = K[i][i] + e(i) * e(i);
  }
  spec::innovations(K, yy, m, v);
  for (int i = 0; i < N; i++) {
    obs(nm("mean", i), kf.mean(i));
    obs(nm("var", i), kf.var(i));
    eq(nm("mean", i), kf.mean(i), m[i]);
    eq(nm("var", i), kf.var(i), v[i]);
  }
  reach("end");
}
