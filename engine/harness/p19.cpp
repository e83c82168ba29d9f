// Random variates as functions of their base draws.  Every variate is drawn K times with different
// symbolic parameters, on one generator object, WHAT selecting the groups; D size of covariances.
// A variate made from base draws of another kind than those recognised is not judged.
#include "mcmc.hpp"
using namespace vh;
using namespace vrng;
// v is one of the equally distributed transforms of the base draw
static void oneof(const char *l, double v, double a) { eq(l, v, a); reach(l); }
static void oneof(const char *l, double v, double a, double b) { if (symrt_same(v, b)) { eq(l, v, b); reach(l); return; } eq(l, (v - a) * (v - b), 0.0); reach(l); }
struct Draws {
  size_t mark;
  Draws() : mark(log().size()) {}
  int n() { return (int)(log().size() - mark); }
  rec &r() { return log()[mark]; }
  bool is(kind k) { return n() == 1 && r().k == k; }
  // chi-square variate with n degrees of freedom
  bool chi(double nu, double &c) {
    if (is(CHI2)) { eq("dof", r().p1, nu); c = r().z; return true; }
    if (is(GAMMA)) { eq("shape", r().p1, nu / 2.0); c = 2.0 * r().z; return true; }
    return false;
  }
  bool gam(double a, double &g) {
    if (is(GAMMA)) { eq("shape", r().p1, a); g = r().z; return true; }
    if (is(CHI2)) { eq("dof", r().p1, 2.0 * a); g = r().z / 2.0; return true; }
    return false;
  }
};
static double P(const char *b, int k) { return pos(nm(b, k)); }
static double V(const char *b, int k) { return var(nm(b, k)); }
void harness() {
  RandomGenerator g;
  const std::string what = getenv("H_WHAT");
  const int K = par("K"), D = par("D");
  double c;
  for (int k = 0; k < K; k++) for (size_t w = 0; w < what.size(); w++) {
    char x = what[w];
    Draws d;
    if (x == 'n') { double m = V("m", k), s = P("s", k), v = g.normal(m, s); if (d.is(NORMAL)) oneof("normal", v, m + s * d.r().z, m - s * d.r().z); }
    if (x == 'l') {
      double m = V("lm", k), s = P("ls", k), v = g.lognormal(m, s);
      if (d.is(LOGNORMAL) || d.is(NORMAL)) oneof("lognormal", v, std::exp(m + s * d.r().z), std::exp(m - s * d.r().z));
    }
    if (x == 'e') {
      double l = P("rate", k), v = g.exp(l);
      if (d.is(EXPONENTIAL)) oneof("exponential", v, d.r().z / l);
      else if (d.is(UNIFORM)) oneof("exponential", v, -std::log(d.r().z) / l, -std::log(1.0 - d.r().z) / l);
    }
    if (x == 'u') { double a = V("a", k), b = a + P("w", k), v = g.uniform(a, b); if (d.is(UNIFORM)) oneof("uniform", v, a + (b - a) * d.r().z, b - (b - a) * d.r().z); }
    if (x == 'i') {
      int a = -1 + k, b = 2 + 2 * k, v = g.uniform(a, b);
      if (d.is(UNIFORM_INT)) { ok("integer", v >= a && v <= b && d.r().p2 - d.r().p1 == b - a && v - a == d.r().ivalue - (int)d.r().p1); reach("integer"); }
    }
    if (x == 'p' || x == 'q' || x == 'r') {
      double lo = P("lo", k), hi = lo + P("hw", k), s = x == 'q' ? -0.5 : x == 'r' ? 1.0 : -1.0 + P("sl", k);
      double v = g.powerlaw(lo, hi, s), e = s + 1.0;
      if (d.is(UNIFORM)) {
        double u = d.r().z;
        oneof("powerlaw", v, std::pow((std::pow(hi, e) - std::pow(lo, e)) * u + std::pow(lo, e), 1.0 / e), std::pow((std::pow(hi, e) - std::pow(lo, e)) * (1.0 - u) + std::pow(lo, e), 1.0 / e));
      }
    }
    if (x == 't') {
      double n = P("dof", k), m = V("tm", k), s = P("ts", k), v = g.tdist(n, m, s);
      if (d.is(STUDENT_T)) { eq("dof", d.r().p1, n); oneof("student", v, m + s * d.r().z, m - s * d.r().z); }
    }
    if (x == 'c') { int n = 3 + 4 * k; double v = g.chisqr(n); if (d.chi(n, c)) oneof("chisquare", v, c); }
    if (x == 's') { int n = 5 + 2 * k; double s = P("ss", k), v = g.scaled_inverse_chisqr(n, s); if (d.chi(n, c)) oneof("scaledinverse", v, n * s / c); }
    if (x == 'g') { double a = P("ga", k), b = P("gb", k), v = g.gamma(a, b); if (d.gam(a, c)) oneof("gamma", v, b * c); }
    if (x == 'h') { double a = P("ia", k), b = P("ib", k), v = g.invgamma(a, b); if (d.gam(a, c)) oneof("inversegamma", v, b / c); }
    if (x == 'm') {
      arma::mat R(D, D);
      R.zeros();
      for (int i = 0; i < D; i++) for (int j = i; j < D; j++) { std::string n = "R" + std::to_string(k) + nm("_", i * D + j); R(i, j) = i == j ? pos(n) : var(n); }
      arma::mat S = R.t() * R, C(D, D);
      C.zeros();
      bool good = true;
      for (int j = 0; j < D; j++) {
        Draws f;
        for (int i = 0; i < D; i++) feed().push_back(i == j ? 1.0 : 0.0);
        arma::vec v = g.normal(S);
        good = good && f.n() == D && feed().empty();
        feed().clear();
        if ((int)v.n_elem != D) { ok("length", false); return; }
        for (int a = 0; a < D; a++) for (int b = 0; b < D; b++) C(a, b) = C(a, b) + v(a) * v(b);
      }
      if (!good) continue;
      for (int a = 0; a < D; a++) for (int b = 0; b <= a; b++) eq("covariance", C(a, b), S(a, b));
      // and is linear in the draws
      arma::vec s(D), z1(D), t(D);
      s.zeros();
      for (int j = 0; j < D; j++) {
        z1(j) = var("z" + std::to_string(k) + nm("_", j));
        for (int i = 0; i < D; i++) feed().push_back(i == j ? 1.0 : 0.0);
        s = s + z1(j) * g.normal(S);
      }
      for (int i = 0; i < D; i++) feed().push_back(z1(i));
      t = g.normal(S);
      for (int i = 0; i < D; i++) eq("linear", t(i), s(i));
      reach("covariance");
    }
  }
}
