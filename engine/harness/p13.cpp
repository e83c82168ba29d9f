// Stored log-density against the stored value after a sequence of steps SEQ.
// KIND 0: two tempered chains with an arbitrary quadratic density; letters m/M metropolis step of
// the cold/hot chain, a/A adaptive step, x exchange, s/S new start of the cold/hot chain.
// KIND 1 CAR(1), 2 CAR(p), 3 CARMA, 5 fixed-kappa model: the same letters on real models.
#include "model.hpp"
#include "mcmc.hpp"
using namespace vh;
using namespace mcmc;
class Jump : public Proposal<arma::vec> {
public:
  int k, only;
  Jump(int o) : k(0), only(o) {}
  arma::vec Draw(arma::vec v) { for (size_t i = 0; i < v.n_elem; i++) if (only < 0 || (int)i == only) v(i) = v(i) + var("j" + std::to_string(k) + nm("_", i)); k++; return v; }
  double LogDensity(arma::vec n, arma::vec s) { return 0.0; }
};
template <class P, class F> static void chainstep(char c, Ensemble<P> &e, Jump &q, std::vector<AdaptiveMetro> &am, ExchangeStep<arma::vec, P> *x, F startof) {
  int i = (c >= 'A' && c <= 'Z') ? 1 : 0;
  char l = i ? c + 32 : c;
  if (l == 'm') { MetropStep<arma::vec> st(e[i], q); st.DoStep(); }
  if (l == 'a') am[i].DoStep();
  if (l == 'x' && x) x->DoStep();
  if (l == 's') startof(i);
}
template <class P, class F, class G> static void run(Ensemble<P> &e, F startof, G density, int d, bool first_only) {
  std::string seq = getenv("H_SEQ");
  Jump q(first_only ? 2 : -1);
  NormalProposal n1(1.0);
  std::vector<AdaptiveMetro> am;
  arma::mat S = arma::eye<arma::mat>(d, d);
  for (int i = 0; i < 2; i++) am.push_back(AdaptiveMetro(e[i], n1, S, 0.25, par("ADAPT")));
  ExchangeStep<arma::vec, P> x(e[1], 1, e);
  for (int i = 0; i < 2; i++) startof(i);
  for (size_t k = 0; k < seq.size(); k++) {
    chainstep(seq[k], e, q, am, &x, startof);
    for (int i = 0; i < 2; i++) {
      e[i].SetSampleSize(1);
      static_cast<BaseParameter &>(e[i]).AddToSample(0);
      double want = density(e[i].GetSamples()[0]);
      ok("finite", arma::is_finite(want));
      if (arma::is_finite(want)) { eq("stored", e[i].GetLogDensity(), want); eq("sample", e[i].GetLogLikes()[0], want); }
      arma::vec now = e[i].Value(), smp = e[i].GetSamples()[0];
      for (int j = 0; j < d; j++) eq("value", now(j), smp(j));
    }
  }
  reach("end");
}
void harness() {
  const int kind = par("KIND"), d = par("D");
  double T1 = 1.0 + pos("T");
  int starts = 0;
  if (kind == 0) {
    Density L(d, par("BAD"));
    Ensemble<Par> e;
    for (int i = 0; i < 2; i++) e.AddObject(new Par(&L, i == 0, nm("c", i), i ? T1 : 1.0));
    run(e, [&](int i) { arma::vec v = value(("x" + std::to_string(starts++) + "_").c_str(), d); if (L.kind) lt(v(0), L.cut); Parameter<arma::vec> &p = e[i]; p.Save(p.SetStartingValue(v)); },
        [&](const arma::vec &v) { return L(v); }, d, false);
    return;
  }
  // fixed sampling and error bars; values symbolic
  model::Data dt = model::data(2, true);
  dt.t = {0.0, 1.0};
  dt.e = {0.25, 0.5};
  auto theta = [&](int k) {
    arma::vec v(d);
    v(0) = pos(nm("sd", k)); v(1) = 1.0; v(2) = var(nm("mu", k));
    if (kind == 1) v(3) = 0.0;
    else { v(3) = std::log(2.0); v(4) = std::log(k % 2 ? 3.0 : 2.0); for (int i = 5; i < d; i++) v(i) = std::log(1.5); }
    return v;
  };
  if (kind == 1) {
    Ensemble<CAR1> e;
    dt.t = {0.0, 0.5, 3.0};
    dt.y.push_back(var("y2"));
    dt.e.push_back(0.25);
    for (int i = 0; i < 2; i++) { e.AddObject(new CAR1(i == 0, "c", dt.t, dt.y, dt.e, i ? T1 : 1.0)); }
    CAR1 f(false, "f", dt.t, dt.y, dt.e);
    arma::vec big(4);
    run(e, [&](int i) { Parameter<arma::vec> &p = e[i]; arma::vec v = theta(starts++); double m = f.LogDensity(v); if (!arma::is_finite(m)) symrt_cut(); p.Save(p.SetStartingValue(v)); },
        [&](const arma::vec &v) { return f.LogDensity(v); }, d, true);
  }
  if (kind == 2 || kind == 3 || kind == 5) {
    Ensemble<CARp> e;
    auto make = [&](bool tr, double T) -> CARp * {
      CARp *c = kind == 2 ? new CARp(tr, "c", dt.t, dt.y, dt.e, 2, T) : kind == 3 ? (CARp *)new CARMA(tr, "c", dt.t, dt.y, dt.e, 2, 1, T) : (CARp *)new ZCAR(tr, "c", dt.t, dt.y, dt.e, 2, T);
      c->SetMLE(true);
      return c;
    };
    for (int i = 0; i < 2; i++) e.AddObject(make(i == 0, i ? T1 : 1.0));
    std::unique_ptr<CARp> f(make(false, 1.0));
    run(e, [&](int i) { Parameter<arma::vec> &p = e[i]; p.Save(p.SetStartingValue(theta(starts++))); }, [&](const arma::vec &v) { return f->LogDensity(v); }, d, true);
  }
}
