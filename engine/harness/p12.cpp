// Metropolis steps: acceptance with the tempered Metropolis-Hastings probability.
// KIND 0 generic step with an arbitrary (asymmetric) proposal, 1 adaptive step, 2 generic step on a
// scalar with the normal / Student / log-normal proposals of the library (PROP), BAD how the
// density fails to be finite, K number of steps.
#include "mcmc.hpp"
using namespace vh;
using namespace mcmc;
class Any : public Proposal<arma::vec> {
public:
  int d, k;
  std::vector<double> c;
  Any(int d_) : d(d_), k(0) { for (int i = 0; i < 3; i++) c.push_back(var(nm("q", i))); }
  arma::vec Draw(arma::vec) { arma::vec v(d); for (int i = 0; i < d; i++) v(i) = var("n" + std::to_string(k) + nm("_", i)); k++; return v; }
  double q(const arma::vec &n, const arma::vec &s) { return c[0] * n(0) + c[1] * s(0) + c[2] * n(0) * n(0) * s(0); }
  double LogDensity(arma::vec n, arma::vec s) { return q(n, s); }
};
static void after(bool fin, double a, size_t mark, const arma::vec &oldv, double oldl, const arma::vec &newv, double newl, const arma::vec &v, double l) {
  std::vector<double> u = uniforms(mark);
  bool acc = false;
  if (fin) {
    bool moved = true;
    for (size_t i = 0; i < v.n_elem; i++) if (!symrt_same(v(i), newv(i))) moved = false;
    acc = u.empty() ? (decide(u, a, moved), moved) : decide(u, a, moved);
  }
  for (size_t i = 0; i < v.n_elem; i++) eq(acc ? nm("taken", i) : nm("kept", i), v(i), acc ? newv(i) : oldv(i));
  eq(acc ? "newdensity" : "olddensity", l, acc ? newl : oldl);
  reach(acc ? "accept" : fin ? "reject" : "infinite");
}
void harness() {
  const int kind = par("KIND"), d = par("D"), K = par("K"), bad = par("BAD");
  Density L(d, bad);
  double T = pos("T");
  if (kind == 0) {
    Par p(&L, true, "x", T);
    Any q(d);
    MetropStep<arma::vec> st(p, q, par("REP"));
    start(p, value("x", d), L);
    for (int k = 0; k < K; k++) {
      arma::vec v0 = p.Value();
      double l0 = p.GetLogDensity();
      size_t mark = vrng::log().size();
      st.DoStep();
      arma::vec v1(d);
      for (int i = 0; i < d; i++) v1(i) = var("n" + std::to_string(k) + nm("_", i));
      double l1 = L(v1);
      bool fin = arma::is_finite(l1);
      double a = fin ? (l1 - l0) / T + q.q(v0, v1) - q.q(v1, v0) : 0.0;
      after(fin, a, mark, v0, l0, v1, l1, p.Value(), p.GetLogDensity());
    }
  }
  if (kind == 1) {
    Par p(&L, true, "x", T);
    NormalProposal n1(1.0);
    arma::mat R(d, d), S;
    R.zeros();
    for (int i = 0; i < d; i++) for (int j = i; j < d; j++) R(i, j) = i == j ? pos(nm("R", i * d + j)) : var(nm("R", i * d + j));
    S = R.t() * R;
    AdaptiveMetro st(p, n1, S, in("target", 0.0, 1.0), par("ADAPT"));
    start(p, value("x", d), L);
    for (int k = 0; k < K; k++) {
      arma::vec v0 = p.Value(), z(d);
      double l0 = p.GetLogDensity();
      arma::mat C = st.GetCovariance();
      size_t mark = vrng::log().size();
      st.DoStep();
      int m = 0;
      for (size_t i = mark; i < vrng::log().size(); i++) if (vrng::log()[i].k == vrng::NORMAL && m < d) z(m++) = vrng::log()[i].z;
      ok("draws", m == d);
      if (m != d) return;
      arma::vec v1 = v0;
      if (k == 0) for (int i = 0; i < d; i++) for (int j = 0; j <= i; j++) v1(i) = v1(i) + R(j, i) * z(j);
      else v1(0) = v1(0) + std::sqrt(C(0, 0)) * z(0);            // later steps: dimension 1
      double l1 = L(v1);
      bool fin = arma::is_finite(l1);
      double a = fin ? (l1 - l0) / T : 0.0;
      after(fin, a, mark, v0, l0, v1, l1, p.Value(), p.GetLogDensity());
    }
  }
  if (kind == 2) {
    Par1 p(&L, true, "x", T);
    int which = par("PROP");
    double s = pos("s");
    NormalProposal q0(s);
    StudentProposal q1(pos("dof"), s);
    LogNormalProposal q2(s);
    Proposal<double> *q = which == 0 ? (Proposal<double> *)&q0 : which == 1 ? (Proposal<double> *)&q1 : (Proposal<double> *)&q2;
    MetropStep<double> st(p, *q, par("REP"));
    double x = which == 2 ? pos("x") : var("x");
    if (bad) lt(x, L.cut);
    p.Save(x);
    for (int k = 0; k < K; k++) {
      double v0 = p.Value(), l0 = p.GetLogDensity();
      size_t mark = vrng::log().size();
      st.DoStep();
      double v1 = 0.0;
      int m = 0;
      for (size_t i = mark; i < vrng::log().size(); i++) {
        vrng::rec &r = vrng::log()[i];
        if (r.k == vrng::UNIFORM) continue;
        m++;
        v1 = which == 2 ? v0 * std::exp(s * r.z) : v0 + s * r.z;
      }
      ok("draws", m == 1);
      double l1 = L(v1);
      bool fin = arma::is_finite(l1);
      double a = fin ? (l1 - l0) / T + (which == 2 ? std::log(v1) - std::log(v0) : 0.0) : 0.0;
      arma::vec a0(1), a1(1), av(1);
      a0(0) = v0; a1(0) = v1; av(0) = p.Value();
      after(fin, a, mark, a0, l0, a1, l1, av, p.GetLogDensity());
    }
  }
}
