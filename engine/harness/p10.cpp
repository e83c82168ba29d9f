// Log-density as a pure function: an object with a history H against a fresh one.
// KIND 1 CAR(1), 2 CAR(p), 3 CARMA, 4 free-kappa, 5 fixed-kappa model.
#include "model.hpp"
using namespace vh;
static model::sv draw(const char *b, int kind, int p, int q, int npair) {
  std::string s(b);
  model::sv th;
  spec::cvec r;
  th.push_back(pos(s + "sd"));
  double m = pos(s + "m");
  th.push_back(m * m);
  th.push_back(var(s + "mu"));
  if (kind == 1) th.push_back(std::log(pos(s + "omega")));
  else { model::factors(b, p, npair, th, r); model::distinct(r); }
  if (kind == 3) { r.clear(); model::factors((s + "m").c_str(), q, 0, th, r); }
  if (kind == 4) th.push_back(std::log(pos(s + "w")));
  return th;
}
template <class M> static void go(M &a, M &b, const arma::vec &x, const arma::vec &z, int n) {
  std::string h = getenv("H_H");
  vrng::limit() = par("LIM");
  if (!par("ONE")) { a.SetMLE(true); b.SetMLE(true); }
  double want = b.LogDensity(x);
  bool fin = model::finite(want);
  Parameter<arma::vec> &pa = a;
  for (char c : h) {
    if (c == 'd') a.LogDensity(z);
    if (c == 'x') a.LogDensity(x);
    if (c == 'g') a.getLogDensity(model::sv(z.begin(), z.end()));
    if (c == 's') pa.Save(z);
    if (c == 'u') a.SetStartingValue(z);
    if (c == 'v') a.StartingValue();
    if (c == 'p') { a.GetKalmanPtr()->Predict(a.GetTime()(0) + 0.5 * (a.GetTime()(1) - a.GetTime()(0))); }
    if (c == 'q') { a.GetKalmanPtr()->Predict(a.GetTime()(0) - 1.0); }
    if (c == 'i') { arma::vec t(2); t(0) = a.GetTime()(n - 1) + 1.0; t(1) = a.GetTime()(0) - 1.0; a.GetKalmanPtr()->Simulate(t); }
    if (c == 'o') { arma::vec w(z); w(1) = 3.0; a.SetMLE(false); a.LogDensity(w); if (!par("ONE")) a.SetMLE(true); }
    if (c == 'c') { M k(a); ok("copyfin", model::finite(k.LogDensity(x)) == fin); k.LogDensity(z); }
  }
  double got = a.LogDensity(x);
  ok("support", model::finite(got) == fin);
  if (fin && model::finite(got)) { eq("density", got, want); reach("inside"); }
  M k(a);
  double cp = k.LogDensity(x);
  ok("csupport", model::finite(cp) == fin);
  if (fin && model::finite(cp)) eq("copy", cp, want);
  reach("end");
}
void harness() {
  const int p = par("P"), kind = par("KIND"), q = par("Q"), n = par("N");
  model::Data d = model::data(n, true);
  arma::vec x = model::av(draw("", kind, p, q, par("C"))), z = model::av(draw("o", kind, p, q, 1 - par("C")));
  if (kind == 1) { CAR1 a(true, "a", d.t, d.y, d.e), b(true, "b", d.t, d.y, d.e); go(a, b, x, z, n); }
  if (kind == 2) { CARp a(true, "a", d.t, d.y, d.e, p), b(true, "b", d.t, d.y, d.e, p); go(a, b, x, z, n); }
  if (kind == 3) { CARMA a(true, "a", d.t, d.y, d.e, p, q), b(true, "b", d.t, d.y, d.e, p, q); go(a, b, x, z, n); }
  if (kind == 4) { ZCARMA a(true, "a", d.t, d.y, d.e, p), b(true, "b", d.t, d.y, d.e, p); go(a, b, x, z, n); }
  if (kind == 5) { ZCAR a(true, "a", d.t, d.y, d.e, p), b(true, "b", d.t, d.y, d.e, p); go(a, b, x, z, n); }
}
