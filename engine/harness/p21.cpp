// z-transformed models of order p.  KIND 4 free kappa, 5 fixed kappa; MODE 0: prediction means and
// variances, log-density and normalisation with the binomial polynomial; 1 the same after a given start (times fixed);
// 2 after a drawn start the filter is that of the density there (LIM draws, times fixed).
// KB 1 sets the kappa limits, 0 leaves the default ones; DEN 1 compares the log-density too.
#include "model.hpp"
using namespace vh;
template <class M> static void go(M &c, const model::Data &d, const model::sv &th, const spec::cvec &r, const model::sv &ma, double prior) {
  const int mode = par("MODE");
  double sd = th[0], scale = th[1], mu = th[2];
  arma::vec a = model::av(th);
  double l;
  spec::mat K = model::carma(d, r, ma, sd);
  if (mode == 0) {
    c.SetMLE(true);
    l = c.LogDensity(a);
  } else {
    vrng::limit() = -1;  // a start that is not used is replaced by a drawn one
    arma::vec s = c.SetStartingValue(a);
    bool same = true;
    for (size_t i = 0; i < a.n_elem; i++) same = same && symrt_same(s(i), a(i));
    if (!same) symrt_cut();
    l = 0.0;
  }
  if (!model::finite(l)) { reach("outside"); return; }
  size_t n = d.t.size();
  spec::vec y(n), m, v;
  spec::mat E(K);
  for (size_t i = 0; i < n; i++) { y[i] = d.y[i] - mu; E[i][i] = E[i][i] + scale * d.e[i] * d.e[i]; }
  spec::innovations(E, y, m, v);
  for (size_t i = 0; i < n; i++) { eq("mean", c.GetKalmanPtr()->mean(i), m[i]); eq("var", c.GetKalmanPtr()->var(i), v[i]); }
  eq("normalisation", c.ExtractSigsqr(a) * spec::autocov(r, ma, 1.0, 0.0, true), sd * sd);
  if (par("DEN")) eq("density", l, model::loglik(d, mu, scale, K) + prior);
  reach("inside");
}
void harness() {
  const int p = par("P"), npair = par("C"), kind = par("KIND"), N = par("N"), mode = par("MODE");
  if (mode == 2) {
    vrng::limit() = par("LIM");
    model::sv t = {0.0, 1.0, 9.0}, y, e(3, 0.25);
    for (int i = 0; i < 3; i++) y.push_back(var(nm("y", i)));
    std::unique_ptr<CARp> c, f;
    for (int i = 0; i < 2; i++) (i ? f : c).reset(kind == 4 ? (CARp *)new ZCARMA(true, "z", t, y, e, p) : (CARp *)new ZCAR(true, "z", t, y, e, p));
    arma::vec s = c->StartingValue();
    f->LogDensity(s);
    for (int i = 0; i < 3; i++) { eq("drawnmean", c->GetKalmanPtr()->mean(i), f->GetKalmanPtr()->mean(i)); eq("drawnvar", c->GetKalmanPtr()->var(i), f->GetKalmanPtr()->var(i)); }
    reach("drawn");
    return;
  }
  model::Data d = model::data(N, true);
  if (mode == 1) d.t = model::sv{0.0, 1.0, 9.0, 30.0}, d.t.resize(N);
  double sd = pos("sd"), m = pos("m"), mu = var("mu");
  model::sv th = {sd, m * m, mu};
  spec::cvec r, mr;
  model::factors("", p, npair, th, r);
  model::distinct(r);
  double k, prior = model::scaleprior(m * m);
  if (kind == 4) {
    double w = pos("w");
    th.push_back(std::log(w));
    ZCARMA c(true, "z", d.t, d.y, d.e, p);
    if (par("KB")) {
      double lo = pos("lo"), hi = lo + pos("gap");
      c.SetKappaBounds(lo, hi);
      k = lo + (hi - lo) * w / (1.0 + w);
    } else k = (p - 1) / c.ExtractMA(model::av(th))(1);
    prior = prior + std::log(w) - 2.0 * std::log(1.0 + w);
    for (int i = 1; i < p; i++) mr.push_back(spec::cx(-k, 0.0));
    go(c, d, th, r, model::mapoly(mr), prior);
  } else {
    ZCAR c(true, "z", d.t, d.y, d.e, p);
    double dt = d.t[1] - d.t[0];
    for (int i = 2; i < N; i++) { double x = d.t[i] - d.t[i - 1]; if (x < dt) dt = x; }
    k = 1.0 / dt;
    for (int i = 1; i < p; i++) mr.push_back(spec::cx(-k, 0.0));
    go(c, d, th, r, model::mapoly(mr), prior);
  }
}
