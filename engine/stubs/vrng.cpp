#include "vrng.hpp"
namespace arma {
double verif_arma_u() { double u = vrng::unit("au"); return vrng::note(vrng::ARMA_U, 0, 1, u, u); }
double verif_arma_n() { double z = vrng::real("an"); return vrng::note(vrng::ARMA_N, 0, 1, z, z); }
}
