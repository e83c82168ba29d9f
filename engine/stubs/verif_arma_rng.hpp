// Armadillo's randu()/randn() as symbolic draws (included inside namespace arma).
double verif_arma_u();
double verif_arma_n();
class arma_rng_alt {
public:
  typedef unsigned int seed_type;
  inline static void set_seed(const seed_type) {}
  inline static void set_seed_random() {}
  inline static int randi_val() { return 0; }
  inline static double randu_val() { return verif_arma_u(); }
  inline static double randn_val() { return verif_arma_n(); }
  template <typename eT> inline static void randn_dual_val(eT &a, eT &b) { a = eT(verif_arma_n()); b = eT(verif_arma_n()); }
  template <typename eT> inline static void randi_fill(eT *mem, const uword N, const int a, const int) { for (uword i = 0; i < N; i++) mem[i] = eT(a); }
  inline static int randi_max_val() { return 1; }
};
