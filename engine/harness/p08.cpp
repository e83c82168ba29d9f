// Stationary variance, autocovariance and driving noise agree with the filter's state space.
// KIND 0: Variance() against the filter; 1 CAR(1), 2 CAR(p), 3 CARMA, 4 free-kappa: normalisation.
#include "kf.hpp"
#include "model.hpp"
using namespace vh;
template <class M> static void first(M &m, const arma::vec &th, const model::Data &d, double sd) {
  double l = m.LogDensity(th);
  if (!model::finite(l)) { reach("outside"); return; }
  eq("var0", m.GetKalmanPtr()->var(0), sd * sd + th(1) * d.e[0] * d.e[0]);
  eq("mean0", m.GetKalmanPtr()->mean(0), 0.0);
  reach("inside");
}
void harness() {
  const int p = par("P"), q = par("Q"), npair = par("C"), kind = par("KIND");
  if (kind == 0) {
    arma::cx_vec omega;
    spec::roots(p, npair, &omega);
    arma::vec ma = arma::zeros<arma::vec>(par("PAD") ? p : q + 1), t(2), y(2), e(2);
    ma(0) = 1.0;
    for (int j = 1; j <= q; j++) ma(j) = var(nm("beta", j));
    double sig = var("sigma"), lag = pos("lag");
    ne(sig, 0.0);
    t(0) = var("t0"); t(1) = t(0) + lag;
    y(0) = var("y0"); y(1) = var("y1");
    e(0) = 0.0; e(1) = 0.0;
    model::sv dt = {0.0, 1.0, 2.0};
    CARp m(true, "m", dt, dt, dt, p);
    KalmanFilterp kf(t, y, e, sig * sig, omega, ma);
    kf.Filter();
    double v0 = m.Variance(omega, ma, sig), v1 = m.Variance(omega, ma, sig, lag);
    obs("v0", v0);
    obs("v1", v1);
    eq("variance", v0, kf.var(0));
    eq("lag", v1 * y(0), kf.mean(1) * v0);
    reach("end");
    return;
  }
  model::Data d = model::data(par("N"), true);
  model::sv th;
  double sd = pos("sd"), m = pos("m");
  th.push_back(sd);
  th.push_back(m * m);
  th.push_back(var("mu"));
  if (kind == 1) {
    double om = pos("omega");
    th.push_back(std::log(om));
    CAR1 c(true, "c", d.t, d.y, d.e);
    eq("stationary", c.ExtractSigsqr(model::av(th)) / (2.0 * om), sd * sd);
    first(c, model::av(th), d, sd);
    return;
  }
  spec::cvec r, mr;
  model::factors("", p, npair, th, r);
  model::distinct(r);
  spec::vec ma(1, 1.0);
  auto stat = [&](CARp &c, double s2) {
    arma::vec a = model::av(th);
    eq("stationary", s2 * spec::autocov(r, ma, 1.0, 0.0, true), sd * sd);
    c.SetMLE(true);
    first(c, a, d, sd);
  };
  if (kind == 2) { CARp c(true, "c", d.t, d.y, d.e, p); stat(c, c.ExtractSigsqr(model::av(th))); }
  if (kind == 3) {
    model::factors("m", q, par("MC"), th, mr);
    ma = model::mapoly(mr);
    CARMA c(true, "c", d.t, d.y, d.e, p, q);
    stat(c, c.ExtractSigsqr(model::av(th)));
  }
  if (kind == 4) {
    double w = pos("w"), lo = pos("lo"), hi = lo + pos("gap"), k = lo + (hi - lo) * w / (1.0 + w);
    th.push_back(std::log(w));
    for (int i = 1; i < p; i++) mr.push_back(spec::cx(-k, 0.0));
    ma = model::mapoly(mr);
    ZCARMA c(true, "c", d.t, d.y, d.e, p);
    c.SetKappaBounds(lo, hi);
    stat(c, c.ExtractSigsqr(model::av(th)));
  }
}
