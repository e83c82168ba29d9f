// Parallel tempering set-up: the chains of a sampler run, seen when the run ends.
// W walkers, P and Q orders, Z z-transformed model, S draws kept, Y 1: symbolic data (then no
// draws), TH thinning.
#include "model.hpp"
#include "mcmc.hpp"
#include <carmcmc.hpp>
#include <algorithm>
using namespace vh;
typedef Parameter<arma::vec> chain;
struct Seen {
  bool any = false;
  std::vector<chain *> c;                       // by temperature
  arma::vec cold;                               // value of the chain at temperature one when the run ended
  double colddensity = 0.0;
};
static Seen seen;
static int W, P, Q, Z;
static model::Data dt;
static double maxdev;
static void examine(const std::vector<Step *> &steps) {
  seen.any = true;
  for (size_t i = 0; i < steps.size(); i++) {
    chain *p = dynamic_cast<chain *>(steps[i]->GetParPointer());
    if (p && std::find(seen.c.begin(), seen.c.end(), p) == seen.c.end()) seen.c.push_back(p);
  }
  std::sort(seen.c.begin(), seen.c.end(), [](chain *a, chain *b) { return a->GetTemperature() < b->GetTemperature(); });
  ok("walkers", (int)seen.c.size() == W);
  if ((int)seen.c.size() != W) return;
  for (int i = 0; i < W; i++) {
    double want = W == 1 ? 1.0 : std::pow(100.0, double(i) / (W - 1));
    ok("ladder", std::fabs(seen.c[i]->GetTemperature() - want) < 1e-9 * want);
    ok("tracked", seen.c[i]->Track() == (i == 0));
  }
  seen.cold = seen.c[0]->Value();
  seen.colddensity = seen.c[0]->GetLogDensity();
  // every chain has the log-density, with the limits, of a model made from the data
  std::unique_ptr<CARp> f(Z ? (CARp *)new ZCAR(false, "f", dt.t, dt.y, dt.e, P) : Q ? (CARp *)new CARMA(false, "f", dt.t, dt.y, dt.e, P, Q) : new CARp(false, "f", dt.t, dt.y, dt.e, P));
  f->SetPrior(maxdev);
  arma::vec th = seen.cold;
  th(0) = pos("sd");
  th(2) = var("mu");
  double l = static_cast<chain *>(f.get())->LogDensity(th);
  for (int i = 0; i < W; i++) {
    double li = seen.c[i]->LogDensity(th);
    if (arma::is_finite(l)) { ok("limits", arma::is_finite(li)); if (arma::is_finite(li)) eq("density", li, l); reach("inside"); }
    else { ok("limits", !arma::is_finite(li)); reach("outside"); }
  }
  // exchanges that are certain to be accepted move values between neighbours only
  std::set<int> pairs;
  for (size_t k = 0; k < steps.size(); k++) {
    ExchangeStep<arma::vec, CARp> *x = dynamic_cast<ExchangeStep<arma::vec, CARp> *>(steps[k]);
    if (!x) continue;
    std::vector<arma::vec> v;
    for (int i = 0; i < W; i++) { arma::vec w = seen.cold; w(2) = 0.25 * (i + 1); seen.c[i]->Save(w); v.push_back(w); }
    for (int i = 0; i < W; i++) seen.c[i]->SetLogDensity(i + 1.0);
    x->DoStep();
    std::vector<int> moved;
    for (int i = 0; i < W; i++) if (!mcmc::same(seen.c[i]->Value(), v[i])) moved.push_back(i);
    ok("pair", moved.size() == 2);
    if (moved.size() != 2) return;
    ok("neighbours", moved[1] == moved[0] + 1);
    ok("swapped", mcmc::same(seen.c[moved[0]]->Value(), v[moved[1]]) && mcmc::same(seen.c[moved[1]]->Value(), v[moved[0]]));
    pairs.insert(moved[0]);
  }
  ok("allpairs", (int)pairs.size() == W - 1);
}
void harness() {
  W = par("W"); P = par("P"); Q = par("Q"); Z = par("Z");
  const int S = par("S"), sym = par("Y"), thin = par("TH");
  dt.t = {0.0, 1.0, 2.0, 20.0};
  dt.e = {0.25, 0.5, 0.25, 0.5};
  dt.y = {2.0, -2.0, -2.0, 2.0};
  if (sym) { dt.y[0] = var("y0"); dt.y[1] = dt.y[0] + 8.0 + pos("dy"); dt.y[2] = dt.y[0]; dt.y[3] = dt.y[1]; }
  double m = 0.0, v = 0.0;
  for (double x : dt.y) m = m + x / 4.0;
  for (double x : dt.y) v = v + x * x / 4.0;
  maxdev = 10.0 * std::sqrt(v - m * m);
  std::vector<double> init = {1.0, 1.0, 0.5, std::log(2.0), std::log(3.0)};
  if (P == 3) init.push_back(std::log(3.0));
  for (int i = 0; i < Q; i++) init.push_back(std::log(1.5 + i));
  boost::ptr_watch<Step>::fn() = examine;
  // proposals move the mean only, by fixed amounts: the draws that decide are the uniform ones
  if (S) { int n = (int)init.size() * W * S * thin; for (int i = 0; i < n; i++) vrng::feedt().push_back(i % (int)init.size() == 2 ? 0.25 * ((i * 3) % 7 - 3) + 0.125 : 0.0); }
  std::shared_ptr<CARp> r = RunCarmaSampler(S, 0, dt.t, dt.y, dt.e, P, Q, W, Z, thin, init);
  boost::ptr_watch<Step>::fn() = nullptr;
  if (!seen.any) return;
  eq("returnedtemperature", r->GetTemperature(), 1.0);
  ok("returnedtracked", r->Track());
  ok("class", (dynamic_cast<ZCAR *>(r.get()) != 0) == (Z != 0) && (dynamic_cast<CARMA *>(r.get()) != 0) == (!Z && Q > 0));
  ok("draws", (int)r->GetSamples().size() == S && (int)r->GetLogLikes().size() == S);
  if (S && (int)r->GetSamples().size() == S) {
    arma::vec last = r->GetSamples()[S - 1];
    for (size_t i = 0; i < last.n_elem; i++) eq("lastdraw", last(i), seen.cold(i));
    eq("lastdensity", r->GetLogLikes()[S - 1], seen.colddensity);
  }
  arma::vec now = r->Value();
  for (size_t i = 0; i < now.n_elem; i++) eq("returnedvalue", now(i), seen.cold(i));
  reach("end");
}
