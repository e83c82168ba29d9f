// Log-density inside the support: Gaussian log-likelihood plus log-prior.
// KIND 1 CAR(1), 2 CAR(p), 3 CARMA, 4 free-kappa model; MLE 1 switches the prior limits off.
#include "model.hpp"
using namespace vh;
template <class M> static void go(M &m, const model::sv &th, double want, double prior) {
  if (par("MLE")) m.SetMLE(true);
  double l = par("SV") ? m.getLogDensity(th) : m.LogDensity(model::av(th));
  eq("prior", par("SV") ? m.getLogPrior(th) : m.LogPrior(model::av(th)), prior);
  if (!model::finite(l)) { reach("outside"); return; }
  obs("density", l);
  eq("density", l, want);
  reach("inside");
}
void harness() {
  const int p = par("P"), q = par("Q"), npair = par("C"), kind = par("KIND");
  model::Data d = model::data(par("N"), true);
  model::sv th;
  double sd = pos("sd"), m = pos("m"), mu = var("mu");
  th.push_back(sd);
  th.push_back(m * m);
  th.push_back(mu);
  if (kind == 1) {
    double om = pos("omega");
    th.push_back(std::log(om));
    CAR1 c(true, "c", d.t, d.y, d.e);
    double pr = model::scaleprior(m * m);
    go(c, th, model::loglik(d, mu, m * m, model::ou(d, om, sd)) + pr, pr);
    return;
  }
  spec::cvec r, mr;
  model::factors("", p, npair, th, r);
  model::distinct(r);
  if (kind == 2) {
    CARp c(true, "c", d.t, d.y, d.e, p);
    double pr = model::scaleprior(m * m);
    go(c, th, model::loglik(d, mu, m * m, model::carma(d, r, model::sv(1, 1.0), sd)) + pr, pr);
  }
  if (kind == 3) {
    model::factors("m", q, par("MC"), th, mr);
    CARMA c(true, "c", d.t, d.y, d.e, p, q);
    double pr = model::scaleprior(m * m);
    go(c, th, model::loglik(d, mu, m * m, model::carma(d, r, model::mapoly(mr), sd)) + pr, pr);
  }
  if (kind == 4) {
    double w = pos("w"), lo = pos("lo"), hi = lo + pos("gap"), k = lo + (hi - lo) * w / (1.0 + w);
    th.push_back(std::log(w));
    for (int i = 1; i < p; i++) mr.push_back(spec::cx(-k, 0.0));
    ZCARMA c(true, "c", d.t, d.y, d.e, p);
    c.SetKappaBounds(lo, hi);
    double pr = model::scaleprior(m * m) + std::log(w) - 2.0 * std::log(1.0 + w);
    go(c, th, model::loglik(d, mu, m * m, model::carma(d, r, model::mapoly(mr), sd)) + pr, pr);
  }
}
