// Exchange steps between neighbouring chains: W chains, exchange step at index I, K exchanges.
#include "mcmc.hpp"
using namespace vh;
using namespace mcmc;
void harness() {
  const int W = par("W"), I = par("I"), K = par("K"), d = par("D");
  Density L(d, 0);
  Ensemble<Par> e;
  std::vector<double> T;
  for (int i = 0; i < W; i++) {
    T.push_back(i ? T.back() + pos(nm("dT", i)) : pos("T0"));
    e.AddObject(new Par(&L, i == 0, nm("c", i), T[i]));
    e[i].Save(value(("x" + std::to_string(i) + "_").c_str(), d));
  }
  ExchangeStep<arma::vec, Par> st(e[I], I, e, par("REP"));
  ok("pointer", st.GetParPointer() == &e[I]);
  for (int k = 0; k < K; k++) {
    std::vector<arma::vec> v;
    std::vector<double> l;
    for (int i = 0; i < W; i++) { v.push_back(e[i].Value()); l.push_back(e[i].GetLogDensity()); }
    size_t mark = vrng::log().size();
    st.DoStep();
    std::vector<double> u = uniforms(mark);
    double a = (1.0 / T[I] - 1.0 / T[I - 1]) * (l[I - 1] - l[I]);
    bool moved = !same(v[I], e[I].Value());
    bool sw = u.empty() ? (decide(u, a, moved), moved) : decide(u, a, moved);
    if (sw) { std::swap(v[I], v[I - 1]); std::swap(l[I], l[I - 1]); }
    for (int i = 0; i < W; i++) {
      arma::vec now = e[i].Value();
      for (int j = 0; j < d; j++) eq(sw ? "swapped" : "stayed", now(j), v[i](j));
      eq(sw ? "swapden" : "stayden", e[i].GetLogDensity(), l[i]);
      eq("temperature", e[i].GetTemperature(), T[i]);
      ok("tracking", e[i].Track() == (i == 0));
    }
    reach(sw ? "swap" : "stay");
  }
}
