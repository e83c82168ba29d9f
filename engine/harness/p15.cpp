// Robust adaptive Metropolis: covariance of the proposals before and after each step.
// D dimension, K steps followed, M length of the adaptation
// period, G decay exponent in hundredths (0: the default), FIX number
// of first steps whose unit draws (and the initial factor) are fixed numbers.
#include "mcmc.hpp"
using namespace vh;
using namespace mcmc;
class Rec : public Par {
public:
  std::vector<arma::vec> at;
  bool dead = false;                 // nothing is accepted while set
  Rec(const Density *l, double t) : Par(l, true, "x", t) {}
  double LogDensity(arma::vec v) { at.push_back(v); return dead ? -std::numeric_limits<double>::infinity() : (*L)(v); }
};
// covariance of the proposals a step makes: columns from unit draws
static void spread(const char *label, AdaptiveMetro st, const arma::mat &C, Rec &p, int d) {
  arma::mat S(d, d);
  S.zeros();
  p.dead = true;
  for (int j = 0; j < d; j++) {
    AdaptiveMetro k(st);
    arma::vec v0 = p.Value();
    p.at.clear();
    for (int i = 0; i < d; i++) vrng::feed().push_back(i == j ? 1.0 : 0.0);
    k.DoStep();
    ok("fed", vrng::feed().empty() && !p.at.empty());
    if (p.at.empty()) return;
    arma::vec w = p.at[0] - v0;
    for (int a = 0; a < d; a++) for (int b = 0; b < d; b++) S(a, b) = S(a, b) + w(a) * w(b);
  }
  p.dead = false;
  for (int a = 0; a < d; a++) for (int b = 0; b <= a; b++) eq(label, S(a, b), C(a, b));
}
void harness() {
  const int d = par("D"), K = par("K"), M = par("M"), bad = par("BAD"), spr = par("SPREAD"), fixed = par("FIX");
  Density L(d, bad);
  double T = pos("T"), target = var("target");
  lt(0.0, target);
  lt(target, 1.0);
  Rec p(&L, T);
  NormalProposal n1(1.0);
  arma::mat R(d, d);
  R.zeros();
  for (int i = 0; i < d; i++) for (int j = i; j < d; j++) R(i, j) = fixed ? (i == j ? 1.0 : 0.5) : i == j ? pos(nm("R", i * d + j)) : var(nm("R", i * d + j));
  arma::mat S = R.t() * R;
  AdaptiveMetro st(p, n1, S, target, M);
  double gamma = 2.0 / 3.0;
  if (par("G")) { gamma = par("G") / 100.0; st.SetDecayRate(gamma); }
  arma::mat C = st.GetCovariance();
  for (int a = 0; a < d; a++) for (int b = 0; b <= a; b++) eq("initial", C(a, b), S(a, b));
  if (bad) { arma::vec x = value("x", d); lt(x(0), L.cut); p.Save(x); } else p.Save(value("x", d));
  if (spr == 1) spread("spread", st, C, p, d);
  for (int k = 0; k < K; k++) {
    arma::vec v0 = p.Value();
    double l0 = p.GetLogDensity();
    p.at.clear();
    size_t mark = vrng::log().size();
    for (int i = 0; i < d; i++) { double z = k < fixed ? 1.0 + i : var("z" + std::to_string(k) + nm("_", i)); ne(z, 0.0); vrng::feed().push_back(z); }   // a zero draw has probability zero
    st.DoStep();
    double zz = 0.0;
    int m = 0;
    for (size_t i = mark; i < vrng::log().size(); i++) if (vrng::log()[i].k == vrng::NORMAL) { zz = zz + vrng::log()[i].z * vrng::log()[i].z; m++; }
    ok("draws", m == d && !p.at.empty());
    if (m != d || p.at.empty()) return;
    arma::vec w = p.at[0] - v0;
    double l1 = L(p.at[0]), alpha = 0.0;
    if (arma::is_finite(l1)) { alpha = std::exp((l1 - l0) / T); if (alpha > 1.0) alpha = 1.0; }
    arma::mat C1 = st.GetCovariance();
    if (k < M) {
      double eta = k == 0 ? 1.0 : std::min(1.0, d / std::pow((double)k, gamma));
      for (int a = 0; a < d; a++) for (int b = 0; b <= a; b++) eq("adapted", C1(a, b), C(a, b) + eta * (alpha - target) * w(a) * w(b) / zz);
      if (d <= 2 && k == 0) {
        less("variance", 0.0, C1(0, 0));
        if (d == 2) less("determinant", 0.0, C1(0, 0) * C1(1, 1) - C1(0, 1) * C1(1, 0));
      }
      reach("adapting");
    } else {
      for (int a = 0; a < d; a++) for (int b = 0; b <= a; b++) eq("frozen", C1(a, b), C(a, b));
      reach("frozen");
    }
    C = C1;
  }
  if (spr == 2) spread("spread", st, C, p, d);
}
