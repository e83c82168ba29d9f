// Row order and repeated times.  ROWS: one letter per row, the rank of its time ('a' earliest);
// rows with the same letter share a time.  KIND 0 CAR(1) filter, 1 CARMA filter, 2 CAR(1) model,
// 3 CAR(p) model, 4 CARMA model.
#include "kf.hpp"
#include "model.hpp"
using namespace vh;
static model::sv tv, yv, ev;                     // rows
static std::string rows;
static model::Data kept(const arma::vec &t, const arma::vec &y, const arma::vec &e, const model::sv &times) {
  // one row per distinct time, value and error bar from the same row at that time
  model::Data d;
  ok("size", t.n_elem == times.size() && y.n_elem == times.size() && e.n_elem == times.size());
  for (size_t g = 0; g < times.size() && g < t.n_elem && g < y.n_elem && g < e.n_elem; g++) {
    eq(nm("time", g), t(g), times[g]);
    bool found = false;
    for (size_t k = 0; k < rows.size(); k++) found = found || (rows[k] == (char)('a' + g) && symrt_same(yv[k], y(g)) && symrt_same(ev[k], e(g)));
    ok(nm("row", g), found);
    d.t.push_back(times[g]);
    d.y.push_back(y(g));
    d.e.push_back(e(g));
  }
  return d;
}
template <class KF> static void same(KF &a, KF &b, const model::sv &times) {
  a.Filter();
  b.Filter();
  ok("fsize", a.mean.n_elem == b.mean.n_elem && a.var.n_elem == b.var.n_elem);
  for (size_t i = 0; i < times.size(); i++) { eq(nm("mean", i), a.mean(i), b.mean(i)); eq(nm("var", i), a.var(i), b.var(i)); }
  for (int k = 0; k < 3; k++) {
    double t = k == 0 ? times[0] - pos("before") : k == 1 ? times[0] + (times[1] - times[0]) * 0.25 : times[times.size() - 1] + pos("after");
    std::pair<double, double> pa = a.Predict(t), pb = b.Predict(t);
    eq(nm("pmean", k), pa.first, pb.first);
    eq(nm("pvar", k), pa.second, pb.second);
  }
  reach("filter");
}
template <class M> static void samemodel(M &a, M &b, const arma::vec &theta) {
  double la = a.LogDensity(theta), lb = b.LogDensity(theta);
  bool fa = model::finite(la), fb = model::finite(lb);
  ok("support", fa == fb);
  if (fa && fb) { eq("density", la, lb); reach("inside"); } else reach("outside");
}
void harness() {
  const int kind = par("KIND"), how = par("HOW");
  rows = getenv("H_ROWS");
  size_t n = rows.size(), g = 0;
  for (char c : rows) g = std::max(g, (size_t)(c - 'a' + 1));
  model::sv times;
  double tt = var("t0");
  for (size_t i = 0; i < g; i++) { if (i) tt = tt + pos(nm("dt", i)); times.push_back(tt); }
  for (size_t k = 0; k < n; k++) { tv.push_back(times[rows[k] - 'a']); yv.push_back(var(nm("y", k))); ev.push_back(nonneg(nm("e", k))); }
  arma::vec t = model::av(tv), y = model::av(yv), e = model::av(ev);
  if (kind == 0) {
    double om = pos("omega"), s2 = pos("sigsqr");
    auto a = kf::make1(how, t, y, e, s2, om);
    model::Data d = kept(a->GetTime(), a->GetTimeSeries(), a->GetTimeSeriesErr(), times);
    auto b = kf::make1(0, model::av(d.t), model::av(d.y), model::av(d.e), s2, om);
    same(*a, *b, times);
  } else if (kind == 1) {
    arma::cx_vec omega;
    double s2 = pos("sigsqr");
    spec::roots(2, par("C"), &omega);
    arma::vec ma(2);
    ma(0) = 1.0;
    ma(1) = var("beta1");
    auto a = kf::makep(how, t, y, e, s2, omega, ma);
    model::Data d = kept(a->GetTime(), a->GetTimeSeries(), a->GetTimeSeriesErr(), times);
    auto b = kf::makep(0, model::av(d.t), model::av(d.y), model::av(d.e), s2, omega, ma);
    same(*a, *b, times);
  } else {
    model::sv theta;
    theta.push_back(var("sd"));
    double m = pos("m");
    theta.push_back(m * m);
    theta.push_back(var("mu"));
    if (kind == 2) {
      theta.push_back(std::log(pos("omega")));
      CAR1 a(true, "a", tv, yv, ev);
      model::Data d = kept(a.GetTime(), a.GetTimeSeries(), a.GetTimeSeriesErr(), times);
      kept(a.GetKalmanPtr()->GetTime(), a.GetTimeSeries(), a.GetTimeSeriesErr(), times);
      CAR1 b(true, "b", d.t, d.y, d.e);
      samemodel(a, b, model::av(theta));
    } else {
      spec::cvec r, mr;
      model::factors("", 2, par("C"), theta, r);
      if (kind == 3) {
        CARp a(true, "a", tv, yv, ev, 2);
        model::Data d = kept(a.GetTime(), a.GetTimeSeries(), a.GetTimeSeriesErr(), times);
        kept(a.GetKalmanPtr()->GetTime(), a.GetTimeSeries(), a.GetTimeSeriesErr(), times);
        CARp b(true, "b", d.t, d.y, d.e, 2);
        samemodel(a, b, model::av(theta));
      } else {
        model::factors("m", 1, 0, theta, mr);
        CARMA a(true, "a", tv, yv, ev, 2, 1);
        model::Data d = kept(a.GetTime(), a.GetTimeSeries(), a.GetTimeSeriesErr(), times);
        CARMA b(true, "b", d.t, d.y, d.e, 2, 1);
        samemodel(a, b, model::av(theta));
      }
    }
  }
}
