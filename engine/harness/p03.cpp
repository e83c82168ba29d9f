// Prediction at any time against the exact Gaussian conditional given every observation.
#include "kf.hpp"
#include "spec.hpp"
using namespace vh;
// POS: 0 before the first observation, k in 1..N-1 between k-1 and k, N after the last,
// 100+k exactly at observation k (which then has a nonzero error bar), 200+k the same with a
// zero error bar.
static spec::vec times;
static double cov(bool car1, const spec::cvec &roots, const spec::vec &beta, double sigsqr, double om, double lag, bool zero) {
  if (!car1) return spec::autocov(roots, beta, sigsqr, lag, zero);
  return sigsqr / (2.0 * om) * (zero ? 1.0 : std::exp(-om * lag));
}
template <class KF> static void go(KF &kf, int N, double tq, int pos_, int hist, bool car1, const spec::cvec &roots, const spec::vec &beta,
                                   double sigsqr, double om, const arma::vec &t, const arma::vec &y, const arma::vec &e) {
  if (hist == 1) kf.Filter();
  if (hist == 2) { kf.Filter(); kf.Predict(t(N - 1) + pos("h1")); }
  if (hist == 3) kf.Predict(t(0) - pos("h1"));
  if (hist == 4) kf.Predict((t(0) + t(1)) / 2.0);
  std::pair<double, double> r = kf.Predict(tq);
  spec::mat K(N, spec::vec(N));
  spec::vec yy(N), k(N);
  for (int i = 0; i < N; i++) {
    yy[i] = y(i);
    for (int j = 0; j <= i; j++) K[i][j] = K[j][i] = cov(car1, roots, beta, sigsqr, om, t(i) - t(j), i == j);
    K[i][i] = K[i][i] + e(i) * e(i);
    bool later = pos_ < 100 ? i >= pos_ : i > pos_ - 100, same = pos_ == 100 + i;
    k[i] = cov(car1, roots, beta, sigsqr, om, later ? t(i) - tq : tq - t(i), same);
  }
  double m, v;
  spec::condition(K, k, cov(car1, roots, beta, sigsqr, om, 0.0, true), yy, m, v);
  obs("mean", r.first);
  obs("var", r.second);
  eq("mean", r.first, m);
  eq("var", r.second, v);
  if (hist == 5) {
    // the filter itself is unaffected by predictions
    kf.Filter();
    spec::vec fm, fv;
    spec::innovations(K, yy, fm, fv);
    for (int i = 0; i < N; i++) { eq(nm("fmean", i), kf.mean(i), fm[i]); eq(nm("fvar", i), kf.var(i), fv[i]); }
  }
  reach("end");
}
void harness() {
  const int N = par("N"), p = par("P"), q = par("Q"), npair = par("C"), hist = par("H");
  int pos_ = par("POS");
  const bool exact = pos_ >= 200;
  if (exact) pos_ = pos_ - 100;
  arma::vec t(N), y(N), e(N);
  double tt = var("t0"), tq = 0.0;
  if (pos_ == 0) tq = tt - pos("d");
  for (int i = 0; i < N; i++) {
    if (i) {
      double gap = spec::step(i);
      if (i == pos_) { tq = tt + gap; gap = gap + pos("d"); }
      tt = tt + gap;
    }
    if (pos_ == 100 + i) tq = tt;
    t(i) = tt;
    y(i) = var(nm("y", i));
    e(i) = pos_ != 100 + i ? nonneg(nm("e", i)) : exact ? 0.0 : pos(nm("e", i));
  }
  if (pos_ == N) tq = tt + pos("d");
  double sigsqr = pos("sigsqr");
  spec::cvec roots;
  spec::vec beta(1, 1.0);
  if (p == 1) {
    double om = pos("omega");
    auto kfp = kf::make1(par("HOW"), t, y, e, sigsqr, om);
    KalmanFilter1 &kf = *kfp;
    go(kf, N, tq, pos_, hist, true, roots, beta, sigsqr, om, t, y, e);
  } else {
    arma::cx_vec omega;
    roots = spec::roots(p, npair, &omega);
    arma::vec ma = arma::zeros<arma::vec>(par("PAD") ? p : q + 1);
    ma(0) = 1.0;
    for (int k = 1; k <= q; k++) { ma(k) = var(nm("beta", k)); beta.push_back(ma(k)); }
    auto kfp = kf::makep(par("HOW"), t, y, e, sigsqr, omega, ma);
    KalmanFilterp &kf = *kfp;
    go(kf, N, tq, pos_, hist, false, roots, beta, sigsqr, 0.0, t, y, e);
  }
}
