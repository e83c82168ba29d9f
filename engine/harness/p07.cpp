// Moving-average polynomials.  KIND 0 CARMA, 1 free-kappa model, 2 expansion of given roots.
#include "model.hpp"
using namespace vh;
void harness() {
  const int p = par("P"), q = par("Q"), kind = par("KIND");
  model::sv t = {0.0, 1.0, 2.5, 4.0}, y = {0.1, -0.3, 0.4, 0.2}, e = {0.1, 0.1, 0.2, 0.1}, th = {1.0, 1.0, 0.0};
  if (kind == 2) {
    const int npair = par("C");
    arma::cx_vec r(q);
    std::vector<spec::cx> c(1, spec::cx(1.0, 0.0));      // highest power first
    for (int k = 0; k < q; k++) {
      if (k < 2 * npair) { double a = var(nm("a", k / 2)), b = var(nm("b", k / 2)); r(k) = spec::cx(a, k % 2 ? -b : b); }
      else r(k) = spec::cx(var(nm("r", k)), 0.0);
    }
    if (par("REV")) r = arma::reverse(r);
    for (int k = 0; k < q; k++) {
      std::vector<spec::cx> n(c);
      n.push_back(spec::cx(0.0, 0.0));
      for (size_t i = 0; i < c.size(); i++) n[i + 1] = n[i + 1] - c[i] * r(k);
      c = n;
    }
    arma::vec got = polycoefs(r);
    ok("count", (int)got.n_elem == q + 1);
    for (int i = 0; i <= q; i++) { obs(nm("c", i), got(i)); eq(nm("coef", i), got(i), c[i].real()); eq(nm("imag", i), c[i].imag(), 0.0); }
    reach("end");
    return;
  }
  for (int i = 0; i < p; i++) th.push_back(0.1 * i);
  arma::vec ma;
  spec::vec want(1, 1.0);
  auto mul = [&](const spec::vec &f) {
    spec::vec r(want.size() + f.size() - 1, 0.0);
    for (size_t i = 0; i < want.size(); i++) for (size_t j = 0; j < f.size(); j++) r[i + j] = r[i + j] + want[i] * f[j];
    want = r;
  };
  if (kind == 0) {
    for (int i = 0; i < q; i++) th.push_back(var(nm("x", i)));
    for (int i = 0; i < q / 2; i++) { double a = std::exp(th[3 + p + 2 * i]), b = std::exp(th[4 + p + 2 * i]); mul({1.0, b / a, 1.0 / a}); }
    if (q % 2) mul({1.0, 1.0 / std::exp(th[3 + p + q - 1])});
    CARMA m(true, "m", t, y, e, p, q);
    ma = m.ExtractMA(model::av(th));
  } else {
    double w = pos("w");                         // odds of the normalised kappa
    th.push_back(std::log(w));
    double lo, hi;
    std::unique_ptr<ZCARMA> m;
    if (par("SET")) {
      lo = pos("lo");
      hi = lo + pos("gap");
      m.reset(new ZCARMA(true, "m", t, y, e, p));
      m->SetKappaBounds(lo, hi);
    } else {
      model::Data d = model::data(4);
      m.reset(new ZCARMA(true, "m", d.t, d.y, d.e, p));
      double mn = d.t[1] - d.t[0], T = d.t[3] - d.t[0];   // allowed range never reaches past the sampling
      for (int i = 2; i < 4; i++) mn = std::min(mn, d.t[i] - d.t[i - 1]);
      lo = 1.0 / T;
      hi = 1.0 / mn;
    }
    ma = m->ExtractMA(model::av(th));
    ok("len", (int)ma.n_elem == p);
    double ik = ma(1) / (p - 1.0);               // 1/kappa
    less("kpos", 0.0, ik);
    if (par("SET")) eq("kappa", 1.0 / ik, lo + (hi - lo) * w / (1.0 + w));
    else { leq("klow", lo * ik, 1.0); leq("khigh", 1.0, hi * ik); }
    for (int i = 1; i < p; i++) mul({1.0, ik});
  }
  ok("size", (int)ma.n_elem == p);
  for (int i = 0; i < p; i++) { obs(nm("ma", i), ma(i)); eq(nm("coef", i), ma(i), i < (int)want.size() ? want[i] : 0.0); }
  reach("end");
}
