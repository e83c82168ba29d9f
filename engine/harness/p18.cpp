// Starting values.  KIND 1 CAR(1), 2 CAR(p), 3 CARMA, 4 free-kappa, 5 fixed-kappa model.
// MODE 0: a drawn start has finite log-density; 1: a given start with finite log-density; 4: a given
// start outside the limits (of the error scale); 2: a given start LEN elements too long (or short); 3: the sampler hands the start to every chain (W chains).
// Draws past LIM are cut; FIX 1 fixes the sampling times, 2 also the deviation and
// error scale given, 3 also the data.
#include "model.hpp"
#include "mcmc.hpp"
using namespace vh;
typedef Parameter<arma::vec> chain;
class Fixed : public mcmc::Par {
public:
  Fixed(const mcmc::Density *l, bool t, std::string n) : mcmc::Par(l, t, n, 1.0) {}
  arma::vec StartingValue() { arma::vec v(L->d); v.fill(0.25); return v; }
  arma::vec SetStartingValue(arma::vec init) { return init; }
};
class Stay : public Step {
public:
  mcmc::Par &p;
  Stay(mcmc::Par &p_) : p(p_) {}
  void DoStep() {}
  std::string ParameterLabel() { return p.Label(); }
  bool ParameterTrack() { return p.Track(); }
  BaseParameter *GetParPointer() { return &p; }
};
static void sampler() {
  const int W = par("W"), d = par("P");
  mcmc::Density L(d, 0);
  std::vector<std::unique_ptr<mcmc::Par> > ps;
  Sampler s(0, 0, 1);
  for (int i = 0; i < W; i++) { ps.emplace_back(new Fixed(&L, i == W - 1, nm("c", i))); s.AddStep(new Stay(*ps[i])); }
  int n = 0;
  while (n < d + 1 && symrt_branch(nm("longer", n).c_str())) n++;
  arma::vec x0(n), drawn(d);
  x0.fill(0.75);
  drawn.fill(0.25);
  s.Run(x0);
  for (int i = 0; i < W; i++) {
    arma::vec v = ps[i]->Value();
    for (int j = 0; j < d; j++) eq(n == d ? "given" : "other", v(j), n == d ? 0.75 : 0.25);
    eq("density", ps[i]->GetLogDensity(), L(n == d ? x0 : drawn));
  }
  reach(n == d ? "kept" : "drawn");
}
void harness() {
  const int mode = par("MODE");
  if (mode == 3) { sampler(); return; }
  const int kind = par("KIND"), p = par("P"), q = par("Q"), N = par("N"), fix = par("FIX");
  vrng::limit() = par("LIM");
  model::Data d;
  if (!fix) d = model::data(N, true);
  else for (int i = 0; i < N; i++) { d.t.push_back(std::vector<double>{0.0, 1.0, 9.0, 30.0}[i]); d.y.push_back(fix == 3 ? std::vector<double>{0.0, 2.0, -1.0, 1.0}[i] : var(nm("y", i))); d.e.push_back(0.25); }
  auto make = [&]() -> chain * {
    chain *c = kind == 1 ? (chain *)new CAR1(true, "x", d.t, d.y, d.e) : kind == 2 ? (chain *)new CARp(true, "x", d.t, d.y, d.e, p) :
      kind == 3 ? (chain *)new CARMA(true, "x", d.t, d.y, d.e, p, q) : kind == 4 ? (chain *)new ZCARMA(true, "x", d.t, d.y, d.e, p) : (chain *)new ZCAR(true, "x", d.t, d.y, d.e, p);
    return c;
  };
  const int n = kind == 1 ? 4 : 3 + p + (kind == 3 ? q : 0) + (kind == 4 ? 1 : 0);
  std::unique_ptr<chain> c(make()), f(make());
  if (mode == 0) {
    arma::vec v = c->StartingValue();
    ok("length", (int)v.n_elem == n);
    ok("finite", arma::is_finite(f->LogDensity(v)));
    reach("drawn");
    return;
  }
  model::sv th;
  spec::cvec r, m;
  if (mode == 4) {
    th = {1.0, 2.0 + pos("over"), 0.5};
    if (kind == 1) th.push_back(std::log(0.5));
    else { th.push_back(std::log(2.0)); th.push_back(std::log(3.0)); }
    while ((int)th.size() < n) th.push_back(0.0);
  } else {
    th.push_back(fix >= 2 ? 1.0 : var("sd"));
    th.push_back(fix >= 2 ? 1.0 : var("scale"));
    th.push_back(var("mu"));
    if (kind == 1) th.push_back(var("logw"));
    else model::factors("a", p, par("C"), th, r);
    if (kind == 3) model::factors("m", q, 0, th, m);
    if (kind == 4) th.push_back(var("k"));
  }
  if (mode == 2) { int l = par("LEN"); for (int i = 0; i < l; i++) th.push_back(0.5); while (l++ < 0) th.pop_back(); }
  arma::vec init = model::av(th);
  bool good = mode == 1 && arma::is_finite(f->LogDensity(init));
  if (mode == 1 && !good) symrt_cut();
  if (mode == 4) reach("outside");
  if (good) vrng::limit() = 1;
  arma::vec v = c->SetStartingValue(init);
  ok("length", (int)v.n_elem == n);
  if ((int)v.n_elem != n) return;
  if (good) { for (int i = 0; i < n; i++) eq("kept", v(i), init(i)); reach("kept"); }
  else { std::unique_ptr<chain> g(make()); ok("finite", arma::is_finite(g->LogDensity(v))); reach("drawn"); }
}
