// The ways a filter object can be made: 0 Armadillo vectors, 1 standard vectors (the Python
// interface), 2 data only, parameters set afterwards, 3 made for other parameters, used, and
// then given the wanted ones.
#ifndef VERIF_KF_HPP
#define VERIF_KF_HPP
#include <random.hpp>
#include <kfilter.hpp>
#include <memory>
namespace kf {
inline std::vector<double> sv(const arma::vec &x) { return std::vector<double>(x.begin(), x.end()); }
inline std::unique_ptr<KalmanFilter1> make1(int how, arma::vec t, arma::vec y, arma::vec e, double sigsqr, double omega) {
  if (how == 0) return std::unique_ptr<KalmanFilter1>(new KalmanFilter1(t, y, e, sigsqr, omega));
  if (how == 1) return std::unique_ptr<KalmanFilter1>(new KalmanFilter1(sv(t), sv(y), sv(e), sigsqr, omega));
  std::unique_ptr<KalmanFilter1> k;
  if (how == 2) k.reset(new KalmanFilter1(t, y, e));
  else { k.reset(new KalmanFilter1(sv(t), sv(y), sv(e))); k->SetSigsqr(2.0); k->SetOmega(0.5); k->Filter(); }
  k->SetSigsqr(sigsqr);
  k->SetOmega(omega);
  return k;
}
inline std::unique_ptr<KalmanFilterp> makep(int how, arma::vec t, arma::vec y, arma::vec e, double sigsqr, arma::cx_vec omega, arma::vec ma) {
  if (how == 0) return std::unique_ptr<KalmanFilterp>(new KalmanFilterp(t, y, e, sigsqr, omega, ma));
  if (how == 1) return std::unique_ptr<KalmanFilterp>(new KalmanFilterp(sv(t), sv(y), sv(e), sigsqr, std::vector<std::complex<double> >(omega.begin(), omega.end()), sv(ma)));
  std::unique_ptr<KalmanFilterp> k;
  arma::vec full(ma);
  full.resize(omega.n_elem);
  if (how == 2) k.reset(new KalmanFilterp(t, y, e));
  else {
    k.reset(new KalmanFilterp(sv(t), sv(y), sv(e)));
    arma::cx_vec o(2);
    o(0) = std::complex<double>(-1.0, 0.0);
    o(1) = std::complex<double>(-2.0, 0.0);
    arma::vec m(2);
    m(0) = 1.0; m(1) = 0.5;
    k->SetSigsqr(2.0); k->SetOmega(o); k->SetMA(m); k->Filter();
  }
  k->SetSigsqr(sigsqr);
  k->SetOmega(omega);
  k->SetMA(full);
  return k;
}
}
#endif
