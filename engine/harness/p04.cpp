// Conditional simulation: the returned values are an affine function of independent standard
// normal draws whose mean and covariance are the exact joint conditional given the data.
// LAY, in time order: o observation, z noise-free observation, s requested time; '=' puts the
// next item at the same time as the previous one.  ORD 1 requests the times in reverse order.
#include "kf.hpp"
#include "spec.hpp"
using namespace vh;
struct item { char kind; double t; int grp; };
static double cov(int p, const spec::cvec &roots, const spec::vec &beta, double sigsqr, double om, double lag, bool zero) {
  if (p > 1) return spec::autocov(roots, beta, sigsqr, lag, zero);
  return sigsqr / (2.0 * om) * (zero ? 1.0 : std::exp(-om * lag));
}
template <class KF> static void go(KF &kf, int p, const std::vector<item> &it, int ord, const spec::cvec &roots, const spec::vec &beta, double sigsqr,
                                   double om, const arma::vec &y, const arma::vec &e) {
  std::vector<int> so, ss;                       // indices of observations / requested times
  for (size_t i = 0; i < it.size(); i++) (it[i].kind == 's' ? ss : so).push_back(i);
  if (ord == 1) std::reverse(ss.begin(), ss.end());
  if (ord == 2) std::rotate(ss.begin(), ss.begin() + 1, ss.end());
  size_t n = so.size(), m = ss.size();
  auto c = [&](int i, int j) {
    if (it[i].grp == it[j].grp) return cov(p, roots, beta, sigsqr, om, 0.0, true);
    return cov(p, roots, beta, sigsqr, om, it[i].grp > it[j].grp ? it[i].t - it[j].t : it[j].t - it[i].t, false);
  };
  // exact joint conditional by sequential conditioning (K = L D L')
  std::vector<int> all(so);
  std::vector<double> treq;
  std::vector<int> rep(m);                        // repeated requested times share one value
  for (size_t k = 0; k < m; k++) treq.push_back(it[ss[k]].t);
  std::vector<double> req(treq);
  auto simulate = [&](const std::vector<double> &z) { vrng::feed() = z; std::vector<double> x = kf.Simulate(req); vrng::feed().clear(); return x; };
  std::vector<double> z0(m, 0.0);
  std::vector<double> base = simulate(z0);
  ok("count", base.size() == m);
  std::vector<std::vector<double> > L(m);
  for (size_t k = 0; k < m; k++) { std::vector<double> z(m, 0.0); z[k] = 1.0; L[k] = simulate(z); for (size_t j = 0; j < m; j++) L[k][j] = L[k][j] - base[j]; }
  spec::mat Koo(n, spec::vec(n));
  spec::vec yy(n);
  for (size_t i = 0; i < n; i++) { yy[i] = y(i); for (size_t j = 0; j < n; j++) Koo[i][j] = c(so[i], so[j]); Koo[i][i] = Koo[i][i] + e(i) * e(i); }
  // mean and covariance of the requested values given the data
  spec::mat B(n + 2, spec::vec(n + 2));
  for (size_t a = 0; a < m; a++) {
    spec::vec ka(n);
    for (size_t i = 0; i < n; i++) ka[i] = c(ss[a], so[i]);
    double mu, va;
    spec::condition(Koo, ka, c(ss[a], ss[a]), yy, mu, va);
    obs(nm("mean", a), base[a]);
    eq(nm("mean", a), base[a], mu);
    for (size_t b = 0; b <= a; b++) {
      double s = 0.0;
      for (size_t k = 0; k < m; k++) s = s + L[k][a] * L[k][b];
      double want = va;
      if (b != a) {
        // cov(a,b|data) = (var(a+b|data) - var(a|data) - var(b|data)) / 2
        spec::vec kb(n), kab(n);
        for (size_t i = 0; i < n; i++) { kb[i] = c(ss[b], so[i]); kab[i] = ka[i] + kb[i]; }
        double mb, vb, mab, vab;
        spec::condition(Koo, kb, c(ss[b], ss[b]), yy, mb, vb);
        spec::condition(Koo, kab, c(ss[a], ss[a]) + c(ss[b], ss[b]) + 2.0 * c(ss[a], ss[b]), yy, mab, vab);
        want = (vab - va - vb) / 2.0;
      }
      eq(nm("cov", a) + nm("_", b), s, want);
    }
  }
  // affine in the draws, whatever their values
  std::vector<double> zs;
  for (size_t k = 0; k < m; k++) zs.push_back(var(nm("z", k)));
  std::vector<double> x = simulate(zs);
  for (size_t a = 0; a < m; a++) {
    double want = base[a];
    for (size_t k = 0; k < m; k++) want = want + L[k][a] * zs[k];
    eq(nm("affine", a), x[a], want);
  }
  // the filter is as it was before
  kf.Filter();
  spec::vec fm, fv;
  spec::innovations(Koo, yy, fm, fv);
  ok("size", kf.mean.n_elem == n && kf.var.n_elem == n);
  for (size_t i = 0; i < n; i++) { eq(nm("fmean", i), kf.mean(i), fm[i]); eq(nm("fvar", i), kf.var(i), fv[i]); }
  reach("end");
}
void harness() {
  const int p = par("P"), q = par("Q"), npair = par("C"), ord = par("ORD");
  std::string lay = getenv("H_LAY");
  std::vector<item> it;
  double tt = var("t0");
  bool same = true;
  int grp = 0;
  std::vector<double> ev;
  for (size_t i = 0; i < lay.size(); i++) {
    if (lay[i] == '=') { same = true; continue; }
    if (!same) { tt = tt + pos(nm("dt", i)); grp++; }
    same = false;
    item x = {lay[i], tt, grp};
    it.push_back(x);
  }
  int n = 0;
  for (auto &x : it) n += x.kind != 's';
  arma::vec t(n), y(n), e(n);
  int k = 0;
  for (auto &x : it) if (x.kind != 's') {
    bool tie = false;
    for (auto &w : it) tie = tie || (w.kind == 's' && w.grp == x.grp);
    t(k) = x.t;
    y(k) = var(nm("y", k));
    e(k) = x.kind == 'z' ? 0.0 : tie ? pos(nm("e", k)) : nonneg(nm("e", k));
    k++;
  }
  double sigsqr = pos("sigsqr");
  spec::cvec roots;
  spec::vec beta(1, 1.0);
  if (p == 1) {
    double om = pos("omega");
    auto kfp = kf::make1(par("HOW"), t, y, e, sigsqr, om);
    KalmanFilter1 &kf = *kfp;
    go(kf, p, it, ord, roots, beta, sigsqr, om, y, e);
  } else {
    arma::cx_vec omega;
    roots = spec::roots(p, npair, &omega);
    arma::vec ma = arma::zeros<arma::vec>(par("PAD") ? p : q + 1);
    ma(0) = 1.0;
    for (int j = 1; j <= q; j++) { ma(j) = var(nm("beta", j)); beta.push_back(ma(j)); }
    auto kfp = kf::makep(par("HOW"), t, y, e, sigsqr, omega, ma);
    KalmanFilterp &kf = *kfp;
    go(kf, p, it, ord, roots, beta, sigsqr, 0.0, y, e);
  }
}
