// Autoregressive roots of any parameter vector: their polynomial is the product of the factors.
#include "model.hpp"
using namespace vh;
void harness() {
  const int p = par("P"), kind = par("KIND");
  model::sv t = {0.0, 1.0, 2.5, 4.0}, y = {0.1, -0.3, 0.4, 0.2}, e = {0.1, 0.1, 0.2, 0.1}, th = {1.0, 1.0, 0.0};
  spec::vec want(1, 1.0);                        // 1, s, s^2 ... of the product of the factors
  auto mul = [&](const spec::vec &f) {
    spec::vec r(want.size() + f.size() - 1, 0.0);
    for (size_t i = 0; i < want.size(); i++) for (size_t j = 0; j < f.size(); j++) r[i + j] = r[i + j] + want[i] * f[j];
    want = r;
  };
  for (int i = 0; i < p; i++) th.push_back(var(nm("x", i)));
  for (int i = 0; i < p / 2; i++) mul({std::exp(th[3 + 2 * i]), std::exp(th[4 + 2 * i]), 1.0});
  if (p % 2) mul({std::exp(th[3 + p - 1]), 1.0});
  arma::cx_vec r;
  if (kind == 0) { CARp m(true, "m", t, y, e, p); r = m.ExtractAR(model::av(th)); }
  if (kind == 1) { th.push_back(var("z")); CARMA m(true, "m", t, y, e, p, 1); r = m.ExtractAR(model::av(th)); }
  if (kind == 2) { th.push_back(var("z")); ZCARMA m(true, "m", t, y, e, p); r = m.ARRoots(model::av(th)); }
  if (kind == 3) { ZCAR m(true, "m", t, y, e, p); r = m.ARRoots(model::av(th)); }
  ok("count", (int)r.n_elem == p);
  std::vector<spec::cx> c(1, spec::cx(1.0, 0.0));
  for (int k = 0; k < p; k++) {
    std::vector<spec::cx> n(c.size() + 1, spec::cx(0.0, 0.0));
    for (size_t i = 0; i < c.size(); i++) { n[i + 1] = n[i + 1] + c[i]; n[i] = n[i] - c[i] * r(k); }
    c = n;
    less(nm("stable", k), r(k).real(), 0.0);
    obs(nm("re", k), r(k).real());
    obs(nm("im", k), r(k).imag());
  }
  for (int i = 0; i <= p; i++) { eq(nm("coef", i), c[i].real(), want[i]); eq(nm("imag", i), c[i].imag(), 0.0); }
  reach("end");
}
