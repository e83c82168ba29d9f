// Support of the log-density.  KIND as in p10; SET 1 gives the deviation limit explicitly; MLE 1
// expects the limits to be ignored.  Exact equality with a frequency limit is left out.
#include "model.hpp"
using namespace vh;
static const double PI = 3.14159265358979323846;
void harness() {
  const int p = par("P"), kind = par("KIND"), q = par("Q"), n = par("N"), set = par("SET"), mle = par("MLE");
  model::Data d = model::data(n, true);
  if (par("FIX") > 0) { d.t = {0.0, 1.0, 5.0}; }        // larger orders: sampling times fixed
  model::sv th;
  const int fix = par("FIX");                    // 2: also a deviation and scale inside their limits
  double sd = fix == 2 ? 1.0 : mle ? pos("sd") : var("sd"), sc = fix == 2 ? 1.0 : mle ? pos("scale") : var("scale"), lim = 0.0;
  th.push_back(sd);
  th.push_back(sc);
  th.push_back(var("mu"));
  spec::cvec r, mr;
  double om = 0.0;
  if (kind == 1) { om = pos("omega"); th.push_back(std::log(om)); }
  else { model::factors("", p, par("C"), th, r, !mle); if (mle) model::distinct(r); }
  if (kind == 3) model::factors("m", q, 0, th, mr);
  if (kind == 4) th.push_back(std::log(pos("w")));
  if (set) lim = fix == 2 ? 10.0 : pos("limit");
  else {
    double m = 0.0, s = 0.0;
    for (double v : d.y) m = m + v / n;
    for (double v : d.y) s = s + (v - m) * (v - m) / (n - 1.0);
    lim = 10.0 * std::sqrt(s);
  }
  auto eval = [&](auto &&m) { if (set) m.SetPrior(lim); m.SetMLE(mle); return m.LogDensity(model::av(th)); };
  double l = 0.0;
  if (kind == 1) l = eval(CAR1(true, "a", d.t, d.y, d.e));
  if (kind == 2) l = eval(CARp(true, "a", d.t, d.y, d.e, p));
  if (kind == 3) l = eval(CARMA(true, "a", d.t, d.y, d.e, p, q));
  if (kind == 4) l = eval(ZCARMA(true, "a", d.t, d.y, d.e, p));
  if (kind == 5) l = eval(ZCAR(true, "a", d.t, d.y, d.e, p));
  bool fin = model::finite(l);
  if (mle) { ok("ignored", fin); reach("mle"); return; }
  double fmax = d.t[1] - d.t[0], fmin = 1.0 / (d.t[n - 1] - d.t[0]);
  for (int i = 2; i < n; i++) { double g = d.t[i] - d.t[i - 1]; if (g < fmax) fmax = g; }
  fmax = 1.0 / fmax;
  auto edge = [&](double a, double b) { if (a == b) symrt_cut(); };
  bool in = !(sd < 0.0) && !(sd > lim) && !(sc < 0.5) && !(sc > 2.0);
  if (kind == 1) { edge(om, fmax); edge(om, fmin); in = in && om < fmax && om > fmin; }
  else {
    model::sv c, w;
    for (auto &x : r) { double im = x.imag() < 0.0 ? -x.imag() : x.imag(); c.push_back(im / (2.0 * PI)); w.push_back(-x.real() / (2.0 * PI)); }
    for (int i = 0; i < p && in; i++) {
      edge(c[i], fmax); edge(w[i], fmax); edge(w[i], fmin);
      in = in && c[i] < fmax && w[i] < fmax && w[i] > fmin;
    }
    for (int i = 1; i < p && in; i++) {
      double up = c[i] - c[i - 1];
      if (up > 0.0 && up < 1e-7) symrt_cut();
      in = in && !(up > 0.0);
    }
    for (int i = 0; i < p && in; i++) for (int j = 0; j < i && in; j++) {
      spec::cx a = r[i] - r[j], b = r[i] + r[j];
      double x = a.real() * a.real() + a.imag() * a.imag(), y = 1e-8 * (b.real() * b.real() + b.imag() * b.imag());
      if (x == 0.0) in = false;                    // equal roots
      else {
        if (x > 0.98 * y && x < 1.02 * y) symrt_cut();
        in = in && x > y;
      }
    }
  }
  ok("support", fin == in);
  reach(in ? "inside" : "outside");
}
