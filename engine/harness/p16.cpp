// The sampler driver: numbers and order of sweeps, kept draws.  Sample size, burn-in, thinning and
// number of steps are unconstrained choices up to the bounds; each step sets its parameter to a
// fresh symbolic value.
#include "mcmc.hpp"
using namespace vh;
using namespace mcmc;
static std::vector<int> events;       // executed steps, in order
static int pick(const char *n, int lo, int hi) { int v = lo; while (v < hi && symrt_branch((std::string(n) + std::to_string(v)).c_str())) v++; return v; }
class Fixed : public Par {      // concrete start: the sampler prints it
public:
  Fixed(const Density *l, bool t, std::string n) : Par(l, t, n, 1.0) {}
  arma::vec StartingValue() { return arma::zeros<arma::vec>(L->d); }
};
class Move : public Step {
public:
  Par &p; int id; std::vector<std::vector<arma::vec> > &hist; int k;
  Move(Par &p_, int id_, std::vector<std::vector<arma::vec> > &h) : p(p_), id(id_), hist(h), k(0) {}
  void DoStep() {
    events.push_back(id);
    arma::vec v = value(("s" + std::to_string(id) + "_" + std::to_string(k++) + "_").c_str(), p.L->d);
    p.Save(v);
    hist[id].push_back(v);
  }
  std::string ParameterLabel() { return p.Label(); }
  bool ParameterTrack() { return p.Track(); }
  BaseParameter *GetParPointer() { return &p; }
};
void harness() {
  const int d = 1, mode = par("MODE");
  int S = pick("S", mode == 1 ? 0 : 1, par("SMAX")), B = pick("B", 0, par("BMAX")), T = pick("T", 1, par("TMAX")), W = pick("W", 1, par("WMAX"));
  int tracked = pick("tracked", 0, W - 1);
  bool init = symrt_branch("init");
  Density L(d, 0);
  std::vector<std::unique_ptr<Par> > ps;
  std::vector<std::vector<arma::vec> > hist(W);
  Sampler s(S, B, T);
  for (int i = 0; i < W; i++) {
    ps.emplace_back(new Fixed(&L, i == tracked, nm("c", i)));
    s.AddStep(new Move(*ps[i], i, hist));
  }
  events.clear();
  arma::vec x0 = init ? arma::vec(d, arma::fill::ones) : arma::vec();
  s.Run(x0);
  ok("steps", s.NumberOfSteps() == W && s.NumberOfTrackedSteps() == 1);
  ok("total", (int)events.size() == W * (B + S * T));
  for (size_t k = 0; k < events.size(); k++) ok("order", events[k] == (int)(k % W));
  std::vector<arma::vec> smp = ps[tracked]->GetSamples();
  std::vector<double> lp = ps[tracked]->GetLogLikes();
  ok("kept", (int)smp.size() == S && (int)lp.size() == S);
  for (int i = 0; i < S && i < (int)smp.size() && i < (int)lp.size(); i++) {
    int k = B + (i + 1) * T - 1;
    if (k >= (int)hist[tracked].size()) break;
    ok("length", smp[i].n_elem == (arma::uword)d);
    if (smp[i].n_elem != (arma::uword)d) break;
    eq("draw", smp[i](0), hist[tracked][k](0));
    eq("density", lp[i], L(hist[tracked][k]));
  }
  for (int i = 0; i < W; i++) if (i != tracked) ok("untracked", ps[i]->GetSamples().empty());
  reach(init ? "given" : "drawn");
}
