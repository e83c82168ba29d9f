// Proposals.  KIND 0 the library's scalar and vector proposals, 1 the stretch move: W walkers of
// dimension D, the I-th moving, support a set at construction (SET 0), by default (1) or later (2).
#include "mcmc.hpp"
using namespace vh;
using namespace mcmc;
static void scalar(const char *l, Proposal<double> &q, double x, double s, bool lognormal) {
  size_t mark = vrng::log().size();
  double y = q.Draw(x);
  if (vrng::log().size() != mark + 1) return;
  double z = vrng::log()[mark].z;
  if (lognormal) eq(l, (y - x * std::exp(s * z)) * (y - x * std::exp(-s * z)), 0.0);
  else eq(l, (y - x - s * z) * (y - x + s * z), 0.0);
  eq("correction", q.LogDensity(x, y) - q.LogDensity(y, x), lognormal ? std::log(y) - std::log(x) : 0.0);
  double a = pos("any"), b = pos("other");
  eq("ratio", q.LogDensity(a, b) - q.LogDensity(b, a), lognormal ? std::log(b) - std::log(a) : 0.0);
  reach(l);
}
void harness() {
  const int D = par("D");
  if (par("KIND") == 0) {
    double s = pos("s"), x = pos("x");
    NormalProposal n(s);
    scalar("normal", n, x, s, false);
    double dof = pos("dof");
    StudentProposal t(dof, s);
    size_t mark = vrng::log().size();
    scalar("student", t, x, s, false);
    if (vrng::log()[mark].k == vrng::STUDENT_T) eq("dof", vrng::log()[mark].p1, dof);
    LogNormalProposal l(s);
    scalar("lognormal", l, x, s, true);
    arma::mat R(D, D);
    R.zeros();
    for (int i = 0; i < D; i++) for (int j = i; j < D; j++) R(i, j) = i == j ? pos(nm("R", i * D + j)) : var(nm("R", i * D + j));
    arma::mat S = R.t() * R, C(D, D);
    C.zeros();
    MultiNormalProposal m(S);
    arma::vec v = value("v", D), y(D);
    bool good = true;
    for (int j = 0; j < D; j++) {
      for (int i = 0; i < D; i++) vrng::feed().push_back(i == j ? 1.0 : 0.0);
      y = m.Draw(v) - v;
      good = good && vrng::feed().empty();
      for (int a = 0; a < D; a++) for (int b = 0; b < D; b++) C(a, b) = C(a, b) + y(a) * y(b);
    }
    if (good) { for (int a = 0; a < D; a++) for (int b = 0; b <= a; b++) eq("covariance", C(a, b), S(a, b)); reach("multinormal"); }
    for (int i = 0; i < D; i++) vrng::feed().push_back(0.0);
    y = m.Draw(v);
    for (int i = 0; i < D; i++) eq("centre", y(i), v(i));
    arma::vec w = value("w", D);
    eq("symmetric", m.LogDensity(v, w), m.LogDensity(w, v));
    return;
  }
  const int W = par("W"), I = par("I"), set = par("SET");
  vrng::limit() = 4;
  Density L(D, 0);
  Ensemble<Par> e;
  for (int i = 0; i < W; i++) { e.AddObject(new Par(&L, i == 0, nm("c", i), 1.0)); e[i].Save(value(("x" + std::to_string(i) + "_").c_str(), D)); }
  double a = set == 1 ? 2.0 : 1.0 + pos("a");
  StretchProposal<Par> q = set == 0 ? StretchProposal<Par>(e, I, a) : StretchProposal<Par>(e, I);
  if (set == 2) q.SetScalingSupport(a);
  Proposal<arma::vec> &pq = q;
  for (int k = 0; k < 2; k++) {
    size_t mark = vrng::log().size();
    arma::vec x = e[I].Value();
    vrng::limit() = vrng::count() + 3;
    arma::vec y = pq.Draw(x);
    // the partner is the last integer drawn
    int j = -1, nu = 0;
    double u = 0.0;
    for (size_t r = mark; r < vrng::log().size(); r++) {
      if (vrng::log()[r].k == vrng::UNIFORM_INT) j = vrng::log()[r].ivalue;
      if (vrng::log()[r].k == vrng::UNIFORM) { u = vrng::log()[r].z; nu++; }
    }
    if (nu != 1 || j < 0) return;
    ok("inensemble", j < W);
    if (j >= W) return;
    // another walker's value: the partner cannot be the walker itself
    ok("partner", j != I);
    arma::vec o = e[j].Value();
    double root = (std::sqrt(a) - 1.0 / std::sqrt(a)) * u + 1.0 / std::sqrt(a), z = root * root;
    for (int i = 0; i < D; i++) eq("stretched", y(i), o(i) + z * (x(i) - o(i)));
    leq("shortest", 1.0 / a, z);
    leq("longest", z, a);
    bool near = true;
    for (int i = 0; i < D; i++) { double d = x(i) - y(i); if (d < 0.0) d = -d; if (!(d < 1e-9)) near = false; }
    if (near) symrt_cut();
    eq("correction", pq.LogDensity(x, y) - pq.LogDensity(y, x), (D - 1.0) * std::log(z));
    reach("stretch");
    e[I].Save(y);
    if (par("K") == 1) break;
  }
}
