/* The building blocks that the repository's own tests call directly. */
#define FNFT_ENABLE_SHORT_NAMES
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <math.h>
#include <complex.h>
#ifndef NO_KERNELS
#include "fnft__nse_fscatter.h"
#include "fnft__nse_scatter.h"
#include "fnft__kdv_scatter.h"
#include "fnft__kdv_fscatter.h"
#include "fnft__manakov_fscatter.h"
#include "fnft__manakov_scatter.h"
#include "fnft__nse_finvscatter.h"
#include "fnft__misc.h"
#include "fnft__poly_fmult.h"
#include "fnft__poly_chirpz.h"
#include "fnft__poly_eval.h"
#include "fnft__poly_roots_fasteigen.h"
#include "fnft__poly_roots_fftgridsearch.h"
#include "fnft__poly_specfact.h"
#include "fnft__nse_discretization.h"
#include "fnft__kdv_discretization.h"
#include "fnft__manakov_discretization.h"
#undef I
#define I _Complex_I
#pragma weak fnft__nse_fscatter
#pragma weak fnft__nse_fscatter_numel
#pragma weak fnft__manakov_fscatter
#pragma weak fnft__manakov_fscatter_numel
#pragma weak fnft__nse_scatter_matrix
#pragma weak fnft__kdv_scatter_matrix
#pragma weak fnft__manakov_scatter_matrix
#pragma weak fnft__nse_finvscatter
#pragma weak fnft__misc_resample
#pragma weak fnft__poly_fmult
#pragma weak fnft__poly_fmult_numel
#pragma weak fnft__poly_fmult2x2
#pragma weak fnft__poly_fmult2x2_numel
#pragma weak fnft__poly_fmult3x3
#pragma weak fnft__poly_fmult3x3_numel
#pragma weak fnft__poly_chirpz
#pragma weak fnft__poly_roots_fasteigen
#pragma weak fnft__poly_roots_fftgridsearch
#pragma weak fnft__poly_roots_fftgridsearch_paraherm
#pragma weak fnft__poly_specfact
#pragma weak fnft__misc_downsample
#pragma weak fnft__nse_scatter_bound_states
#pragma weak fnft__poly_eval
#pragma weak fnft__poly_evalderiv
#pragma weak fnft__misc_filter
#pragma weak fnft__misc_filter_inv
#pragma weak fnft__misc_filter_nonreal
#pragma weak fnft__misc_merge
#pragma weak fnft__kdv_fscatter
#pragma weak fnft__kdv_fscatter_numel
#pragma weak fnft__kdv_scatter_bound_states
#pragma weak fnft__nse_discretization_preprocess_signal
#pragma weak fnft__kdv_discretization_preprocess_signal
#pragma weak fnft__manakov_discretization_preprocess_signal
#pragma weak fnft__manakov_discretization_upsampling_factor
#pragma weak fnft__nse_discretization_upsampling_factor
#pragma weak fnft__kdv_discretization_upsampling_factor
#pragma weak fnft__nse_discretization_lambda_to_z
#pragma weak fnft__nse_discretization_z_to_lambda
#pragma weak fnft__kdv_discretization_lambda_to_z
#pragma weak fnft__kdv_discretization_z_to_lambda
#pragma weak fnft__manakov_discretization_lambda_to_z
#pragma weak fnft__manakov_discretization_z_to_lambda
#pragma weak fnft__nse_discretization_method_weights
#pragma weak fnft__kdv_discretization_method_weights
#pragma weak fnft__misc_rel_err
#pragma weak fnft__misc_hausdorff_dist
#pragma weak fnft__misc_l2norm2
#endif
#include "opsint.h"
#define U(s) ops_u(&(s))

static const char *KN[] = {"nse_fscatter", "manakov_fscatter", "nse_scatter_matrix", "kdv_scatter_matrix", "manakov_scatter_matrix", "nse_finvscatter", "misc_resample", "poly_fmult",
  "poly_fmult2x2", "poly_fmult3x3", "poly_chirpz", "poly_roots_fasteigen", "poly_roots_fftgridsearch", "poly_roots_fftgridsearch_paraherm", "poly_specfact", "misc_downsample", "nse_scatter_bound_states",
  "poly_eval", "poly_evalderiv", "misc_filter", "misc_filter_inv", "misc_filter_nonreal", "misc_merge", "kdv_fscatter", "kdv_scatter_bound_states",
  "nse_discretization_preprocess_signal", "kdv_discretization_preprocess_signal", "manakov_discretization_preprocess_signal", "nse_discretization_lambda_to_z", "nse_discretization_z_to_lambda",
  "kdv_discretization_lambda_to_z", "kdv_discretization_z_to_lambda", "manakov_discretization_lambda_to_z", "manakov_discretization_z_to_lambda", "nse_discretization_method_weights", "kdv_discretization_method_weights",
  "misc_rel_err", "misc_hausdorff_dist", "misc_l2norm2"};
int kernel_count(void) { return sizeof KN / sizeof *KN; }
/* Arguments each building block refuses: 1 first input missing, 2 output missing, 3 no samples, 4 step not positive, 6 count missing, 7 second input missing, 8 no points,
   9 points missing, k unknown sign, d unknown discretization, i infinite interval, o no oversampling, b box reversed, B box NaN, x box missing, t interval missing, n negative tolerance, p number of samples not a power of two */
static const char *KMIS[] = {"12346 7d", "123467kd", "12347k89d", "1234789d", "1234789d", "1234kdp", "1234", "", "", "", "128", "12", "1236i", "1236i", "123ok", "136", "137td", "12", "12", "26bBx", "26bBx", "26n", "26n", "1234 6d", "137td", "1346d", "1346d", "13467d", "d", "d", "d", "d", "d", "d", "d", "d", "", "", ""};
int kernel_nmis(int k) { return k >= 0 && k < kernel_count() ? (int)strlen(KMIS[k]) : 0; }
const char *kernel_name(int k) { return k >= 0 && k < kernel_count() ? KN[k] : "?"; }

#ifdef NO_KERNELS
void kernel_op(const OpSpec *s, const RtFault *f, int nf, uint64_t lim, int protect, OpRes *r) { r->done = 1; r->refused_by_gen = 1; }
#else
typedef double complex C;
static C *arr(size_t n, uint64_t *z, double sc) { C *p = rt_ualloc(16 * n, 0); if (z) for (size_t i = 0; i < n; i++) p[i] = sc * ((2 * U(*z) - 1) + I * (2 * U(*z) - 1)); return p; }

void kernel_op(const OpSpec *s, const RtFault *f, int nf, uint64_t lim, int protect, OpRes *r) {
  const int *p = s->p; int kk = p[P_X1]; uint64_t z = rt_mix(s->dseed, 53);
  size_t D = p[P_D], M = p[P_M]; int disc = p[P_DISC], kap = p[P_KAPPA], W = 0, *Wp = p[P_NORM] ? &W : NULL; double *phi = NULL;
  C *a = NULL, *b = NULL, *c = NULL, *d = NULL, *o = NULL, *av = NULL, *apv = NULL, *bv = NULL; size_t nin = 0, nout = 0; size_t *up = NULL; int *Ws = NULL; size_t deg = p[P_K] > 0 ? p[P_K] : 1; double eps = 0.2, *T = NULL; C *handed = NULL, *handed2 = NULL; size_t hn = 0; size_t fl[2]; int avail = 1;
  const void *in[4] = {0}; size_t inn[4]; void *cp[4]; int ni = 0;
#define IN(x) do { in[ni] = (x); inn[ni] = rt_usize((void *)(x)); ni++; } while (0)
#define NEED(fn) if (!(fn)) { avail = 0; break; }
  switch (kk) {
    case 0: NEED(fnft__nse_fscatter) NEED(fnft__nse_fscatter_numel) if (disc >= 20) D = 4 * ((D + 3) / 4); a = arr(D, &z, 0.6); b = arr(D, NULL, 0); for (size_t i = 0; i < D; i++) b[i] = -kap * conj(a[i]); nout = fnft__nse_fscatter_numel(D, disc); o = rt_ualloc(16 * nout, 0); up = rt_ualloc(8, 0); IN(a); IN(b); break;
    case 1: NEED(fnft__manakov_fscatter) NEED(fnft__manakov_fscatter_numel) D = 4 * ((D + 3) / 4); a = arr(D, &z, 0.5); b = arr(D, &z, 0.5); nout = fnft__manakov_fscatter_numel(D, disc); o = rt_ualloc(16 * nout, 0); up = rt_ualloc(8, 0); IN(a); IN(b); break;
    case 2: case 3: NEED(kk == 2 ? (void *)fnft__nse_scatter_matrix : (void *)fnft__kdv_scatter_matrix) D = 12 * ((D + 11) / 12); a = arr(D, &z, 0.5); b = arr(D, NULL, 0); for (size_t i = 0; i < D; i++) { if (kk == 3) { a[i] = creal(a[i]); b[i] = -1; } else b[i] = -kap * conj(a[i]); } c = arr(M, &z, 1); nout = M * (p[P_RICH] ? 8 : 4); o = rt_ualloc(16 * nout, 0); if (p[P_NORM]) Ws = rt_ualloc(4 * M, 0); IN(a); IN(b); IN(c); break;
    case 4: NEED(fnft__manakov_scatter_matrix) D = 2 * ((D + 1) / 2); a = arr(D, &z, 0.5); b = arr(D, &z, 0.5); c = arr(M, &z, 1); nout = M * 9; o = rt_ualloc(16 * nout, 0); IN(a); IN(b); IN(c); break;
    case 5: { NEED(fnft__nse_finvscatter) size_t dg = D; a = rt_ualloc(16 * 4 * (dg + 1), 0); memset(a, 0, 64 * (dg + 1)); C *x = a; x[dg] = 1; x[3 * (dg + 1)] = 1; for (size_t i = 0; i <= dg; i++) { C v = 0.05 / (dg + 1) * ((2 * U(z) - 1) + I * (2 * U(z) - 1)); x[(dg + 1) + i] = -kap * conj(v); x[2 * (dg + 1) + dg - i] = v; } nout = dg; o = rt_ualloc(16 * nout, 0); break; }
    case 6: NEED(fnft__misc_resample) a = arr(D, &z, 1); nout = D; o = rt_ualloc(16 * D, 0); IN(a); break;
    case 7: { NEED(fnft__poly_fmult) NEED(fnft__poly_fmult_numel) size_t n = D; o = rt_ualloc(16 * fnft__poly_fmult_numel(deg, n), 0); for (size_t i = 0; i < (deg + 1) * n; i++) o[i] = (2 * U(z) - 1) + I * (2 * U(z) - 1); up = rt_ualloc(8, 0); *up = deg; break; }
    case 8: NEED(fnft__poly_fmult2x2) NEED(fnft__poly_fmult2x2_numel) a = rt_ualloc(16 * fnft__poly_fmult2x2_numel(deg, D), 0); for (size_t i = 0; i < 4 * (deg + 1) * D; i++) a[i] = (2 * U(z) - 1) + I * (2 * U(z) - 1); o = rt_ualloc(16 * fnft__poly_fmult2x2_numel(deg, D), 0); up = rt_ualloc(8, 0); *up = deg; break;
    case 9: NEED(fnft__poly_fmult3x3) NEED(fnft__poly_fmult3x3_numel) a = rt_ualloc(16 * fnft__poly_fmult3x3_numel(deg, D), 0); for (size_t i = 0; i < 9 * (deg + 1) * D; i++) a[i] = (2 * U(z) - 1) + I * (2 * U(z) - 1); o = rt_ualloc(16 * fnft__poly_fmult3x3_numel(deg, D), 0); up = rt_ualloc(8, 0); *up = deg; break;
    case 10: NEED(fnft__poly_chirpz) a = arr(D + 1, &z, 1); nout = M; o = rt_ualloc(16 * M, 0); IN(a); break;
    case 11: NEED(fnft__poly_roots_fasteigen) a = arr(D + 1, &z, 1); a[0] = 1 + U(z); nout = D; o = rt_ualloc(16 * D, 0); IN(a); break;
    case 12: case 13: NEED(kk == 12 ? (void *)fnft__poly_roots_fftgridsearch : (void *)fnft__poly_roots_fftgridsearch_paraherm) { size_t dg = kk == 13 ? 2 * D : D; a = arr(dg + 1, &z, 1); if (kk == 13) { for (size_t i = 0; i < D; i++) a[dg - i] = conj(a[i]); a[D] = creal(a[D]); } nout = M; o = rt_ualloc(16 * M, 0); up = rt_ualloc(8, 0); *up = M; phi = rt_ualloc(16, 0); phi[0] = -3; phi[1] = 3; D = dg; IN(a); IN(phi); break; }
    case 14: NEED(fnft__poly_specfact) if (s->dseed % 4 == 1) kap = 0; a = arr(D + 1, &z, 0.3 / (D + 1)); nout = D + 1; o = rt_ualloc(16 * nout, 0); IN(a); break;
    case 15: NEED(fnft__misc_downsample) a = arr(D, &z, 1); up = rt_ualloc(8, 0); *up = D / 2 > 2 ? D / 2 : 2; IN(a); break;
    case 17: case 18: NEED(kk == 17 ? (void *)fnft__poly_eval : (void *)fnft__poly_evalderiv) a = arr(D + 1, &z, 1); nout = M; o = arr(M, &z, 1.5); if (kk == 18) av = rt_ualloc(16 * M, 0); IN(a); break;
    case 19: case 20: NEED(kk == 19 ? (void *)fnft__misc_filter : (void *)fnft__misc_filter_inv) nout = M; o = arr(M, &z, 1.5); phi = rt_ualloc(32, 0); phi[0] = -1; phi[1] = 0.5; phi[2] = -0.7; phi[3] = 1.2; up = rt_ualloc(8, 0); *up = M; if (p[P_RICH]) av = arr(M, &z, 1); IN(phi); break;
    case 21: case 22: NEED(kk == 21 ? (void *)fnft__misc_filter_nonreal : (void *)fnft__misc_merge) nout = M; o = arr(M, &z, 1.5); up = rt_ualloc(8, 0); *up = M; break;
    case 23: NEED(fnft__kdv_fscatter) NEED(fnft__kdv_fscatter_numel) if (disc >= 20) D = 4 * ((D + 3) / 4); a = arr(D, &z, 0.6); b = arr(D, NULL, 0); for (size_t i = 0; i < D; i++) { a[i] = creal(a[i]); b[i] = -1; } nout = fnft__kdv_fscatter_numel(D, disc); o = rt_ualloc(16 * nout, 0); up = rt_ualloc(8, 0); IN(a); IN(b); break;
    case 24: case 16: { if (kk == 24) { NEED(fnft__kdv_scatter_bound_states) } else { NEED(fnft__nse_scatter_bound_states) } size_t u = disc == 22 ? 2 : disc == 23 || disc == 24 ? 3 : disc == 25 ? 4 : disc == 26 || disc == 27 ? 3 : 1; D = u * ((D + u - 1) / u); if (D < 2 * u) D = 2 * u; a = rt_ualloc(16 * D, 0); b = rt_ualloc(16 * D, 0); T = rt_ualloc(16, 0); T[0] = -5; T[1] = 5; for (size_t i = 0; i < D; i++) { double t = -5 + 10.0 * i / (D - 1); a[i] = 2.2 / cosh(t); b[i] = -conj(a[i]); if (kk == 24) { a[i] *= a[i]; b[i] = -1; } } M = 2; c = rt_ualloc(32, 0); c[0] = 1.7 * I; c[1] = 0.7 * I; nout = 0; if (kk == 24) c[1] = 0.6 * I; av = rt_ualloc(32, 0); apv = rt_ualloc(32, 0); bv = rt_ualloc(32, 0); if (p[P_NORM]) Ws = rt_ualloc(8, 0); break; }
    case 25: case 26: case 27: NEED(kk == 25 ? (void *)fnft__nse_discretization_preprocess_signal : kk == 26 ? (void *)fnft__kdv_discretization_preprocess_signal : (void *)fnft__manakov_discretization_preprocess_signal)
      NEED(kk == 25 ? (void *)fnft__nse_discretization_upsampling_factor : kk == 26 ? (void *)fnft__kdv_discretization_upsampling_factor : (void *)fnft__manakov_discretization_upsampling_factor)
      if (D < 3) D = 3; a = arr(D, &z, 1); if (kk == 26) for (size_t i = 0; i < D; i++) a[i] = creal(a[i]); IN(a); if (kk == 27) { b = arr(D, &z, 1); IN(b); } up = rt_ualloc(8, 0); *up = D - s->dseed % (D / 2 + 1); break;
    case 28: case 29: case 30: case 31: case 32: case 33: NEED(kk == 28 ? fnft__nse_discretization_lambda_to_z : kk == 29 ? fnft__nse_discretization_z_to_lambda : kk == 30 ? fnft__kdv_discretization_lambda_to_z : kk == 31 ? fnft__kdv_discretization_z_to_lambda : kk == 32 ? (void *)fnft__manakov_discretization_lambda_to_z : (void *)fnft__manakov_discretization_z_to_lambda)
      nout = M; o = arr(M, &z, 1.5); break;
    case 34: case 35: NEED(kk == 34 ? (void *)fnft__nse_discretization_method_weights : (void *)fnft__kdv_discretization_method_weights) break;
    case 36: case 37: case 38: NEED(kk == 36 ? (void *)fnft__misc_rel_err : kk == 37 ? (void *)fnft__misc_hausdorff_dist : (void *)fnft__misc_l2norm2) a = arr(D, &z, 1); IN(a); if (kk != 38) { b = arr(kk == 36 ? D : M, &z, 1); IN(b); } phi = rt_ualloc(8, 0); phi[0] = 0; break;
    default: avail = 0;
  }
  if (!avail) { r->done = 1; r->refused_by_gen = 1; return; }
  for (int i = 0; i < ni; i++) { cp[i] = malloc(inn[i] + 1); memcpy(cp[i], in[i], inn[i]); if (protect) rt_uprotect((void *)in[i], 1); }
  void *fr[13] = {a, b, c, o, up, phi, Ws, T, av, apv, bv}; int osf = p[P_OSF] > 0 ? p[P_OSF] : 2; double tol = 0.3;
  if (p[P_MIS] && kernel_nmis(kk)) switch (KMIS[kk][(p[P_MIS] - 1) % kernel_nmis(kk)]) {
    case '1': a = NULL; break; case '2': o = NULL; break; case '3': D = kk == 6 || kk == 15 ? s->dseed % 3 : kk == 16 || kk == 24 ? 0 : 0; break; case '4': eps = kk == 6 || (s->dseed & 1) ? 0 : -0.1; break; case '6': up = NULL; break;
    case '7': case ' ': b = NULL; break; case '8': M = 0; break; case '9': c = NULL; break; case 'k': kap = s->dseed % 2 ? 0 : kk == 2 || kk == 4 ? 0 : 3; if (kk == 14) kap = 3; break; case 'd': disc = s->dseed % 2 ? 99 : -1; break; case 'o': osf = 0; break; case 't': T = NULL; break; case 'n': tol = -0.1; break; case 'p': D = D < 3 ? 3 : D & (D - 1) ? D : D - 1; if (!(D & (D - 1))) D = 3; break;
    case 'i': phi = fr[11] = rt_ualloc(16, 0); phi[0] = s->dseed & 1 ? -INFINITY : -3; phi[1] = s->dseed & 1 ? 3 : NAN; break;
    case 'x': phi = NULL; break; case 'b': case 'B': { double *x = fr[11] = rt_ualloc(32, 0); memcpy(x, phi, 32); int w = (s->dseed >> 2) & 3; if (KMIS[kk][(p[P_MIS] - 1) % kernel_nmis(kk)] == 'B') x[w] = NAN; else { x[w & 2] = 2; x[(w & 2) + 1] = 1; } phi = x; break; } }
  rt_set_faults(f, nf); rt_set_step_limit(lim);
  volatile int ret = 0; double *rd;
  if (sigsetjmp(*rt_jb(), 1) == 0) {
    rt_enter(); rt_scribble();
    switch (kk) {
      case 0: ret = fnft__nse_fscatter(D, a, b, eps, o, up, Wp, disc); break;
      case 1: ret = fnft__manakov_fscatter(D, a, b, kap, eps, o, up, Wp, disc); break;
      case 2: ret = fnft__nse_scatter_matrix(D, a, b, eps, kap, M, c, o, Ws, disc, p[P_RICH] ? 1 : 0); break;
      case 3: ret = fnft__kdv_scatter_matrix(D, a, b, eps, kap, M, c, o, Ws, disc, p[P_RICH] ? 1 : 0); break;
      case 4: ret = fnft__manakov_scatter_matrix(D, a, b, eps, M, c, kap, o, disc); break;
      case 5: ret = fnft__nse_finvscatter(D, a, o, eps, kap, disc); break;
      case 6: ret = fnft__misc_resample(D, eps, a, 0.37 * eps, o); break;
      case 7: ret = fnft__poly_fmult(up, D, o, Wp); break;
      case 8: ret = fnft__poly_fmult2x2(up, D, a, o, Wp); break;
      case 9: ret = fnft__poly_fmult3x3(up, D, a, o, Wp); break;
      case 10: ret = fnft__poly_chirpz(D, a, cexp(I * 0.3), cexp(-I * 0.05), M, o); break;
      case 11: ret = fnft__poly_roots_fasteigen(D, a, o); break;
      case 12: ret = fnft__poly_roots_fftgridsearch(D, a, up, phi, o); break;
      case 13: ret = fnft__poly_roots_fftgridsearch_paraherm(D, a, up, phi, o); break;
      case 14: ret = fnft__poly_specfact(D, a, o, osf, kap); break;
      case 15: ret = fnft__misc_downsample(D, a, up, &handed, fl); break;
      case 17: ret = fnft__poly_eval(D, a, M, o); break;
      case 18: ret = fnft__poly_evalderiv(D, a, M, o, av); break;
      case 19: ret = fnft__misc_filter(up, o, av, phi); break;
      case 20: ret = fnft__misc_filter_inv(up, o, av, phi); break;
      case 21: ret = fnft__misc_filter_nonreal(up, o, tol); break;
      case 22: ret = fnft__misc_merge(up, o, tol); break;
      case 23: ret = fnft__kdv_fscatter(D, a, b, eps, kap, o, up, Wp, disc); break;
      case 24: ret = fnft__kdv_scatter_bound_states(D, a, b, T, M, c, av, apv, bv, Ws, disc, p[P_RICH] ? 1 : 0); break;
      case 16: ret = fnft__nse_scatter_bound_states(D, a, b, T, M, c, av, apv, bv, Ws, disc, p[P_RICH] ? 1 : 0); break;
      case 25: ret = fnft__nse_discretization_preprocess_signal(D, a, eps, kap, up, &handed, &handed2, fl, disc); break;
      case 26: ret = fnft__kdv_discretization_preprocess_signal(D, a, eps, kap, up, &handed, &handed2, fl, disc); break;
      case 27: ret = fnft__manakov_discretization_preprocess_signal(D, a, b, eps, up, &handed, &handed2, fl, disc); break;
      case 28: ret = fnft__nse_discretization_lambda_to_z(M, eps, o, disc); break;
      case 29: ret = fnft__nse_discretization_z_to_lambda(M, eps, o, disc); break;
      case 30: ret = fnft__kdv_discretization_lambda_to_z(M, eps, o, disc); break;
      case 31: ret = fnft__kdv_discretization_z_to_lambda(M, eps, o, disc); break;
      case 32: ret = fnft__manakov_discretization_lambda_to_z(M, eps, o, disc); break;
      case 33: ret = fnft__manakov_discretization_z_to_lambda(M, eps, o, disc); break;
      case 34: ret = fnft__nse_discretization_method_weights(&handed, &handed2, disc); break;
      case 35: ret = fnft__kdv_discretization_method_weights(&handed, &handed2, disc); break;
      case 36: phi[0] = fnft__misc_rel_err(D, a, b); break;
      case 37: phi[0] = fnft__misc_hausdorff_dist(D, a, M, b); break;
      case 38: phi[0] = fnft__misc_l2norm2(D, a, -1.3, 2.1); break;
    }
    if (ret == 0 && kk >= 25 && kk <= 27) hn = *up * (kk == 25 ? fnft__nse_discretization_upsampling_factor(disc) : kk == 26 ? fnft__kdv_discretization_upsampling_factor(disc) : fnft__manakov_discretization_upsampling_factor(disc)); if (ret == 0 && (kk == 34 || kk == 35)) hn = 1;
    r->done = 1; r->ret = ret;
  } else r->aborted = rt_aborted();
  rt_leave();
  if (r->done && ret == 0 && kk == 15 && handed) { op_put(r, handed, 16 * *up); rt_release_lib(handed); }
  if (r->done && ret == 0 && kk >= 25 && kk <= 35) { if (handed) { op_put(r, handed, 16 * hn); rt_release_lib(handed); } if (handed2) { op_put(r, handed2, 16 * hn); rt_release_lib(handed2); } if (kk < 28) op_put(r, fl, 16); }
  if (r->done && kk >= 36) op_put(r, phi, 8);
  op_collect(r, 0);
  for (int i = 0; i < ni; i++) { if (protect) rt_uprotect((void *)in[i], 0); if (memcmp(in[i], cp[i], inn[i]) && !r->changed) { r->changed = 1; snprintf(r->what, sizeof r->what, "input %d of %s", i, kernel_name(kk)); } free(cp[i]); }
  if (r->done && ret == 0) {
    size_t n = nout;
    if (kk == 0 || kk == 23) n = 4 * (*up + 1); if (kk == 1) n = 9 * (*up + 1); if (kk == 7) n = *up + 1; if (kk == 8) n = 4 * (*up + 1); if (kk == 9) n = 9 * (*up + 1); if (kk == 12 || kk == 13 || (kk >= 19 && kk <= 22)) n = *up;
    if (o) { size_t mx = rt_usize(o) / 16; op_put(r, o, 16 * (n > mx ? mx : n)); r->K = n; r->capK = mx; }
    if (up) op_put(r, up, 8); if (Wp) op_put(r, &W, 4); if (Ws) op_put(r, Ws, 4 * M);
    if (kk >= 18 && kk <= 20 && av) op_put(r, av, 16 * (kk == 18 ? M : *up < M ? *up : M));
    if (kk == 16 || kk == 24) { op_put(r, av, 16 * M); op_put(r, apv, 16 * M); if (!p[P_RICH]) op_put(r, bv, 16 * M); }
  }
  for (int i = 0; i < 13; i++) rt_ufree(fr[i]);
}
#endif
