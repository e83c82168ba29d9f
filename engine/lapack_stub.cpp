// Exact-arithmetic stand-ins for the LAPACK routines Armadillo calls, used only in the
// symbolic run (the native replay uses the real library).  They are instrumented like the
// code under test.  Routines without a stand-in end the run as "unsupported".
#include "symrt.h"
#include <complex>
#include <cstdlib>
typedef std::complex<double> cx;
extern "C" double symrt_concrete(double);
static bool zero(double x) { return symrt_same(x, 0.0) || symrt_same(x, -0.0); }
static bool zero(const cx &x) { return zero(x.real()) && zero(x.imag()); }
static double cj(double x) { return x; }
static cx cj(const cx &x) { return std::conj(x); }
static double re(double x) { return x; }
static double re(const cx &x) { return x.real(); }
extern "C" void symrt_trap(const char *);

template <class T> static void getrf(int m, int n, T *a, int lda, int *ipiv, int *info) {
  *info = 0;
  int mn = m < n ? m : n;
  for (int k = 0; k < mn; k++) {
    int p = k;
    while (p < m && zero(a[p + k * lda])) p++;
    if (p == m) { ipiv[k] = k + 1; if (*info == 0) *info = k + 1; continue; }
    ipiv[k] = p + 1;
    if (p != k) for (int j = 0; j < n; j++) std::swap(a[p + j * lda], a[k + j * lda]);
    for (int i = k + 1; i < m; i++) {
      if (zero(a[i + k * lda])) continue;
      a[i + k * lda] = a[i + k * lda] / a[k + k * lda];
      for (int j = k + 1; j < n; j++) a[i + j * lda] = a[i + j * lda] - a[i + k * lda] * a[k + j * lda];
    }
  }
}
template <class T> static void getrs(char tr, int n, int nrhs, const T *a, int lda, const int *ipiv, T *b, int ldb, int *info) {
  *info = 0;
  if (tr == 'N' || tr == 'n') {
    for (int r = 0; r < nrhs; r++) {
      T *x = b + r * ldb;
      for (int k = 0; k < n; k++) if (ipiv[k] - 1 != k) std::swap(x[k], x[ipiv[k] - 1]);
      for (int i = 0; i < n; i++) for (int j = 0; j < i; j++) if (!zero(a[i + j * lda]) && !zero(x[j])) x[i] = x[i] - a[i + j * lda] * x[j];
      for (int i = n - 1; i >= 0; i--) {
        for (int j = i + 1; j < n; j++) if (!zero(a[i + j * lda]) && !zero(x[j])) x[i] = x[i] - a[i + j * lda] * x[j];
        x[i] = x[i] / a[i + i * lda];
      }
    }
  } else {
    bool H = tr == 'C' || tr == 'c';
    for (int r = 0; r < nrhs; r++) {
      T *x = b + r * ldb;
      for (int i = 0; i < n; i++) {
        for (int j = 0; j < i; j++) { T u = a[j + i * lda]; x[i] = x[i] - (H ? cj(u) : u) * x[j]; }
        T d = a[i + i * lda]; x[i] = x[i] / (H ? cj(d) : d);
      }
      for (int i = n - 1; i >= 0; i--) for (int j = i + 1; j < n; j++) { T u = a[j + i * lda]; x[i] = x[i] - (H ? cj(u) : u) * x[j]; }
      for (int k = n - 1; k >= 0; k--) if (ipiv[k] - 1 != k) std::swap(x[k], x[ipiv[k] - 1]);
    }
  }
}
extern "C" double symrt_sqrt(double);
static double sq(double x) { return symrt_sqrt(x); }
template <class T> static void potrf(char uplo, int n, T *a, int lda, int *info) {
  *info = 0;
  bool U = uplo == 'U' || uplo == 'u';
  for (int k = 0; k < n; k++) {
    double d = re(a[k + k * lda]);
    for (int l = 0; l < k; l++) { T u = U ? a[l + k * lda] : a[k + l * lda]; if (!zero(u)) d = d - re(u * cj(u)); }
    if (!(d > 0)) { *info = k + 1; return; }
    double s = sq(d);
    a[k + k * lda] = s;
    for (int j = k + 1; j < n; j++) {
      T x = U ? a[k + j * lda] : a[j + k * lda];
      for (int l = 0; l < k; l++) {
        T p = U ? a[l + k * lda] : a[k + l * lda], q = U ? a[l + j * lda] : a[j + l * lda];
        if (!zero(p) && !zero(q)) x = x - (U ? cj(p) * q : q * cj(p));
      }
      if (!zero(x)) x = x / s;
      if (U) a[k + j * lda] = x; else a[j + k * lda] = x;
    }
  }
}
template <class T> static void trtrs(char uplo, char tr, char diag, int n, int nrhs, const T *a, int lda, T *b, int ldb, int *info) {
  *info = 0;
  bool U = (uplo == 'U' || uplo == 'u');
  bool N = (tr == 'N' || tr == 'n');
  bool H = (tr == 'C' || tr == 'c');
  bool unit = (diag == 'U' || diag == 'u');
  bool up = U == N; // effective triangle
  for (int r = 0; r < nrhs; r++) {
    T *x = b + r * ldb;
    for (int ii = 0; ii < n; ii++) {
      int i = up ? n - 1 - ii : ii;
      for (int j = up ? i + 1 : 0; j < (up ? n : i); j++) {
        T u = N ? a[i + j * lda] : a[j + i * lda];
        if (H) u = cj(u);
        if (!zero(u) && !zero(x[j])) x[i] = x[i] - u * x[j];
      }
      if (!unit) { T d = a[i + i * lda]; if (H) d = cj(d); x[i] = x[i] / d; }
    }
  }
}
template <class T> static void getri(int n, T *a, int lda, const int *ipiv, int *info) {
  T *lu = (T *)calloc(n * n + 1, sizeof(T)), *x = (T *)calloc(n * n + 1, sizeof(T));
  for (int j = 0; j < n; j++) for (int i = 0; i < n; i++) { lu[i + j * n] = a[i + j * lda]; x[i + j * n] = i == j ? 1.0 : 0.0; }
  getrs('N', n, n, lu, n, ipiv, x, n, info);
  for (int j = 0; j < n; j++) for (int i = 0; i < n; i++) a[i + j * lda] = x[i + j * n];
  free(lu); free(x);
}
template <class T> static void potrs(char uplo, int n, int nrhs, const T *a, int lda, T *b, int ldb, int *info) {
  bool U = uplo == 'U' || uplo == 'u';
  trtrs(uplo, U ? 'C' : 'N', 'N', n, nrhs, a, lda, b, ldb, info);
  trtrs(uplo, U ? 'N' : 'C', 'N', n, nrhs, a, lda, b, ldb, info);
}
template <class T> static void potri(char uplo, int n, T *a, int lda, int *info) {
  T *f = (T *)calloc(n * n + 1, sizeof(T)), *x = (T *)calloc(n * n + 1, sizeof(T));
  for (int j = 0; j < n; j++) for (int i = 0; i < n; i++) { f[i + j * n] = a[i + j * lda]; x[i + j * n] = i == j ? 1.0 : 0.0; }
  potrs(uplo, n, n, f, n, x, n, info);
  for (int j = 0; j < n; j++) for (int i = 0; i < n; i++) a[i + j * lda] = x[i + j * n];
  free(f); free(x);
}
#define BOTH(X) X(d, double) X(z, cx)
#define DEF(P, T)                                                                                                      \
  extern "C" void P##getrf_(int *m, int *n, T *a, int *lda, int *ipiv, int *info) { getrf<T>(*m, *n, a, *lda, ipiv, info); } \
  extern "C" void P##getrs_(char *t, int *n, int *r, T *a, int *lda, int *ipiv, T *b, int *ldb, int *info) { getrs<T>(*t, *n, *r, a, *lda, ipiv, b, *ldb, info); } \
  extern "C" void P##gesv_(int *n, int *r, T *a, int *lda, int *ipiv, T *b, int *ldb, int *info) { getrf<T>(*n, *n, a, *lda, ipiv, info); if (*info == 0) getrs<T>('N', *n, *r, a, *lda, ipiv, b, *ldb, info); } \
  extern "C" void P##potrf_(char *u, int *n, T *a, int *lda, int *info) { potrf<T>(*u, *n, a, *lda, info); }          \
  extern "C" void P##potrs_(char *u, int *n, int *r, T *a, int *lda, T *b, int *ldb, int *info) { potrs<T>(*u, *n, *r, a, *lda, b, *ldb, info); } \
  extern "C" void P##potri_(char *u, int *n, T *a, int *lda, int *info) { potri<T>(*u, *n, a, *lda, info); }          \
  extern "C" void P##getri_(int *n, T *a, int *lda, int *ipiv, T *, int *, int *info) { getri<T>(*n, a, *lda, ipiv, info); } \
  extern "C" void P##trtrs_(char *u, char *t, char *d, int *n, int *r, T *a, int *lda, T *b, int *ldb, int *info) { trtrs<T>(*u, *t, *d, *n, *r, a, *lda, b, *ldb, info); } \
  extern "C" double P##lange_(char *, int *, int *, T *, int *, double *) { return 1.0; }                             \
  extern "C" void P##gecon_(char *, int *, T *, int *, double *, double *rcond, T *, void *, int *info) { *rcond = 1.0; *info = 0; } \
  extern "C" void P##pocon_(char *, int *, T *, int *, double *, double *rcond, T *, void *, int *info) { *rcond = 1.0; *info = 0; } \
  extern "C" void P##trcon_(char *, char *, char *, int *, T *, int *, double *rcond, T *, void *, int *info) { *rcond = 1.0; *info = 0; }
BOTH(DEF)
extern "C" double dlansy_(char *, char *, int *, double *, int *, double *) { return 1.0; }
extern "C" double zlanhe_(char *, char *, int *, cx *, int *, double *) { return 1.0; }
extern "C" int ilaenv_(...) { return 64; }
#define TRAP(n) extern "C" void n(...) { symrt_trap(#n); }
TRAP(dgbtrf_) TRAP(zgbtrf_) TRAP(dgbtrs_) TRAP(zgbtrs_) TRAP(dgbcon_) TRAP(zgbcon_) TRAP(dgels_) TRAP(zgels_) TRAP(dgelsd_) TRAP(zgelsd_)
TRAP(dpbtrf_) TRAP(zpbtrf_) TRAP(dgesvx_) TRAP(zgesvx_) TRAP(dposvx_) TRAP(zposvx_) TRAP(dgtsv_) TRAP(zgtsv_) TRAP(dgtsvx_) TRAP(zgtsvx_)
TRAP(dgbsv_) TRAP(zgbsv_) TRAP(dgbsvx_) TRAP(zgbsvx_) TRAP(dposv_) TRAP(zposv_) TRAP(dsytrf_) TRAP(zhetrf_) TRAP(dgesdd_) TRAP(zgesdd_) TRAP(dgesvd_)
TRAP(zgesvd_) TRAP(dsyev_) TRAP(dsyevd_) TRAP(zheev_) TRAP(zheevd_) TRAP(dgeev_) TRAP(zgeev_) TRAP(dgeqrf_) TRAP(zgeqrf_) TRAP(dorgqr_) TRAP(zungqr_)
TRAP(dgetrf2_) TRAP(dtrtri_) TRAP(ztrtri_) TRAP(dpttrf_) TRAP(dgges_) TRAP(zgges_) TRAP(dgees_) TRAP(zgees_) TRAP(dsysv_) TRAP(zhesv_) TRAP(dlansb_) TRAP(dlangb_) TRAP(zlangb_)
TRAP(dgeevx_) TRAP(zgeevx_) TRAP(dsytri_) TRAP(dsytrs_) TRAP(zsytrf_) TRAP(zsytri_)
