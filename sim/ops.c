#define FNFT_ENABLE_SHORT_NAMES
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <math.h>
#include <complex.h>
#include "fnft_nsev.h"
#include "fnft_nsev_inverse.h"
#include "fnft_nsep.h"
#include "fnft_kdvv.h"
#include "fnft_manakovv.h"
#include "fnft_version.h"
#include "fnft_errwarn.h"
#undef I
#define I _Complex_I
#include "ops.h"
#include "opsint.h"

static uint64_t rnd(uint64_t *s) { *s += 0x9E3779B97F4A7C15ULL; uint64_t z = *s; z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ULL; z = (z ^ (z >> 27)) * 0x94D049BB133111EBULL; return z ^ (z >> 31); }
double ops_u(uint64_t *s) { return (double)(rnd(s) >> 11) * (1.0 / 9007199254740992.0); }
#define U(s) ops_u(&(s))

static const char *KN[OP_NKINDS] = {"nsev", "nsev_inverse", "nsep", "kdvv", "manakovv", "nsev_inverse_XI", "default_opts", "kernel", "setprintf", "getprintf", "mex"};
const char *op_kind_name(int k) { return k >= 0 && k < OP_NKINDS ? KN[k] : "?"; }
static const char *FN[OP_NKINDS] = {"fnft_nsev", "fnft_nsev_inverse", "fnft_nsep", "fnft_kdvv", "fnft_manakovv", "fnft_nsev_inverse_XI", "", "", "", "", ""};
const char *op_fn_name(const OpSpec *s) { return FN[s->kind]; }
/* degree of the transfer matrix per sample, including the upsampling */
const int op_deg[28] = {1, 1, 1, 1, 1, 1, 1, 3, 3, 2, 4, 2, 15, 15, 12, 6, 105, 105, 24, 12, 8, 4, 1, 1, 1, 1, 1, 1}, op_mdeg[13] = {6, 6, 8, 4, 12, 16, 8, 24, 8, 8, 14, 2, 1};
static const int NDISC[] = {28, 28, 28, 56, 13};
int op_ndisc(int kind) { return kind <= OP_MANAKOVV ? NDISC[kind] : 0; }
int op_disc_slow(int kind, int d) {
  if (kind == OP_MANAKOVV) return d >= 11;
  if (kind == OP_KDVV && d >= 28) d -= 28;
  return d == 1 || d >= 22;
}
int op_fast(const OpSpec *s) { return !op_disc_slow(s->kind, s->p[P_DISC]); }

/* ------------------------------------------------------------------ inputs */
struct OpInputs {
  OpSpec key; int used, shared;
  double complex *q, *q2, *g1, *g2; double *T, *XI; void *opts; size_t optsz;
};
static OpInputs pool[64]; static int npool;

static double Tof(const OpSpec *s, double *T) {
  uint64_t z = rt_mix(s->dseed, 11); double L = 4 + 6 * U(z), a = U(z) < 0.5 ? 1.0 : 0.8 + 0.4 * U(z), u = U(z);
  if (s->kind != OP_NSEP) { if (s->p[P_REG] == 1) L *= 10 + 150 * u * u; if (s->p[P_REG] == 2) L *= pow(10, -4 * u); }
  if (s->kind == OP_NSEP) { T[0] = (s->dseed & 1) ? 0.0 : -0.5; T[1] = T[0] + 2 * FNFT_PI * ((s->dseed & 2) ? 1.0 : 0.5); return 0; }
  if (s->kind == OP_NSEVINV || s->kind == OP_INVXI) { T[0] = -L; T[1] = s->p[P_CST] == 2 ? L : L * a; return 0; }
  T[0] = -L; T[1] = L * a; if (s->p[P_REG] == 7) { double o = (u < 0.5 ? -1 : 1) * 100 * (0.2 + u); T[0] += o; T[1] += o; } return 0;
}
static double amp(const OpSpec *s) { uint64_t z = rt_mix(s->dseed, 13); double A = 0.6 + 3.0 * U(z), u = U(z); if (s->p[P_REG] == 3) A *= 4 + 40 * u; if (s->p[P_REG] == 4) A *= pow(10, -4 - 12 * u); return A; }
static void signal_(const OpSpec *s, const double *T, double complex *q, double complex *q2) {
  int D = s->p[P_D]; uint64_t z = rt_mix(s->dseed, 17); double A = amp(s), ph = 2 * FNFT_PI * U(z), w = 2 * U(z) - 1, th = FNFT_PI * U(z), ch = U(z);
  double off = s->p[P_REG] == 7 && s->kind != OP_NSEP ? 0.5 * (T[0] + T[1]) : 0;
  double h = D > 1 ? (T[1] - T[0]) / (s->kind == OP_NSEP ? D : D - 1) : 1;
  double c[4], f[4]; for (int k = 0; k < 4; k++) { c[k] = 2 * U(z) - 1; f[k] = 2 * FNFT_PI * U(z); }
  for (int i = 0; i < D; i++) {
    double t = T[0] + i * h - off, v = 0; double complex x = 0;
    if (s->kind == OP_NSEP) {
      double P = 2 * FNFT_PI / (T[1] - T[0]), y = (t - T[0]) * P;
      switch (s->p[P_SIG] % 6) {
        case 0: x = A * cexp(I * (y * (1 + (s->dseed >> 3) % 2) + ph)); break;
        case 1: for (int k = 0; k < 4; k++) x += c[k] * cexp(I * ((k - 1) * y + f[k])); break;
        case 2: x = A * (1 + 0.2 * c[0] * cos(y)) ; break;
        case 3: x = 0; break;
        case 4: x = 0.3 * A; break;
        default: x = (2 * U(z) - 1) + I * (2 * U(z) - 1);
      }
    } else if (s->kind == OP_KDVV) {
      switch (s->p[P_SIG] % 6) {
        case 0: v = A / cosh(t); x = v * v; break;
        case 1: x = fabs(t) < 2 ? A : 0; break;
        case 2: x = (ch < 0.3 ? -A : A) * exp(-t * t / 4); break;
        case 3: x = 0; break;
        case 4: x = A * exp(-fabs(t)) * cos(2 * t); break;
        default: x = 0.6 * U(z);
      }
    } else {
      switch (s->p[P_SIG] % 7) {
        case 0: x = A / cosh(t); break;
        case 1: x = fabs(t) < 1.5 ? 0.7 * A * cexp(I * ph) : 0; break;
        case 2: x = A * exp(-t * t / 3) * cexp(I * (ch * t * t + ph)); break;
        case 3: x = 0; break;
        case 4: x = 0.4 * A; break;
        case 5: x = 0.5 * ((2 * U(z) - 1) + I * (2 * U(z) - 1)); break;
        default: x = A / cosh(t - 1.5) * cexp(I * (2 * w * t + ph)) + 0.5 * A / cosh(t + 2);
      }
    }
    if (q2) { q[i] = x * cos(th); q2[i] = x * sin(th) * cexp(I * 0.3 * w * t); } else q[i] = x;
  }
}
static void corrupt(uint64_t seed, double *x, size_t n, int real_only_pairs) {
  uint64_t z = rt_mix(seed, 23); int pat = (int)(rnd(&z) % 9), many = (int)(rnd(&z) % 3); size_t cnt = many == 0 ? 1 : many == 1 ? 1 + n / 8 : n;
  static const double V[] = {NAN, INFINITY, -INFINITY, 4.9e-324, 1e300, -1e300, 1e18, 0, -0.0};
  for (size_t k = 0; k < cnt && n; k++) {
    size_t i = many == 2 ? k : rnd(&z) % n;
    if (real_only_pairs && (i & 1)) i--;
    if (pat == 7) { uint64_t b; memcpy(&b, &x[i], 8); b ^= 1ULL << (rnd(&z) % 64); memcpy(&x[i], &b, 8); }
    else if (pat == 8) { uint64_t b = rnd(&z); memcpy(&x[i], &b, 8); }
    else x[i] = V[pat];
  }
}
int op_cor_pattern(const OpSpec *s) { uint64_t z = rt_mix((uint64_t)s->p[P_COR], 23); return (int)(rnd(&z) % 9); }
int op_cor_target(const OpSpec *s) { uint64_t z = rt_mix((uint64_t)s->p[P_COR], 29); return (int)(rnd(&z) % 8); }

static void fill_opts(const OpSpec *s, OpInputs *in);
static void build(const OpSpec *s, OpInputs *in, int shared) {
  int D = s->p[P_D], M = s->p[P_GB] ? s->p[P_GB] : s->p[P_M], k = s->kind; memset(in, 0, sizeof *in); in->key = *s; in->used = 1; in->shared = shared;
  in->T = rt_ualloc(16, shared); Tof(s, in->T);
  in->XI = rt_ualloc(16, shared);
  uint64_t z = rt_mix(s->dseed, 31); double x = 1 + 4 * U(z);
  if (s->p[P_REG] == 5) x *= 50; if (s->p[P_REG] == 6) x *= 1e-6;
  in->XI[0] = -x; in->XI[1] = x * (0.9 + 0.2 * U(z)); if (s->dseed % 6 == 0 && (k == OP_NSEV || k == OP_MANAKOVV)) { in->XI[0] = -x; in->XI[1] = x; if (s->dseed % 12 == 0 && M > 2) { in->XI[0] = 0; } }   /* zero exactly on the grid */
  if (k == OP_KDVV) { in->XI[0] = 0.1 + 0.3 * U(z); in->XI[1] = in->XI[0] + x; }
  if (s->p[P_GB] > 1) { double a = in->XI[0], d = (in->XI[1] - a) / (s->p[P_GB] - 1); in->XI[0] = a + d * s->p[P_GK]; in->XI[1] = s->p[P_M] > 1 ? a + d * (s->p[P_GK] + s->p[P_M] - 1) : in->XI[0] + 1; }
  if (k == OP_NSEVINV) { double e = (in->T[1] - in->T[0]) / (D - 1); in->XI[0] = (-FNFT_PI + 2 * FNFT_PI / (M > 0 ? M : 1)) / (2 * e); in->XI[1] = FNFT_PI / (2 * e); }
  if (k == OP_NSEV || k == OP_NSEP || k == OP_KDVV || k == OP_MANAKOVV) {
    in->q = rt_ualloc(16 * (size_t)D, shared); if (k == OP_MANAKOVV) in->q2 = rt_ualloc(16 * (size_t)D, shared);
    signal_(s, in->T, in->q, in->q2);
  }
  if (k == OP_NSEVINV && s->p[P_K] > 0) {         /* discrete spectrum of the inverse transform: inputs */
    int K = s->p[P_K]; in->g1 = rt_ualloc(16 * (size_t)K, shared); in->g2 = rt_ualloc(16 * (size_t)K, shared);
    for (int i = 0; i < K; i++) { in->g1[i] = (U(z) - 0.5) + I * (0.3 + 0.4 * i + 0.2 * U(z)); in->g2[i] = (0.5 + U(z)) * cexp(I * 6 * U(z)) * ((i & 1) ? -1 : 1); }
  }
  fill_opts(s, in);
  if (s->p[P_COR] && op_cor_target(s) != 7) {
    uint64_t c = (uint64_t)s->p[P_COR];
    switch (op_cor_target(s)) {
      case 0: corrupt(c, in->T, 2, 0); break;
      case 1: corrupt(c, in->XI, 2, 0); break;
      case 2: if (in->g1) corrupt(c, (double *)in->g1, 2 * (size_t)s->p[P_K], 0); else if (in->q) corrupt(c, (double *)in->q, 2 * (size_t)D, 0); break;
      case 3: if (in->g2) corrupt(c, (double *)in->g2, 2 * (size_t)s->p[P_K], 0); else if (in->q2) corrupt(c, (double *)in->q2, 2 * (size_t)D, 0); else if (in->q) corrupt(c, (double *)in->q, 2 * (size_t)D, 0); break;
      default: if (in->q) corrupt(c, (double *)in->q, 2 * (size_t)D, k == OP_KDVV && (c & 1)); break;
    }
  }
}
void ops_reset(void) { npool = 0; }
static int same_spec(const OpSpec *a, const OpSpec *b) { return a->kind == b->kind && a->dseed == b->dseed && !memcmp(a->p, b->p, sizeof a->p); }
void op_prepare_shared(const OpSpec *s) {
  if (!s->p[P_SHARE] || s->kind == OP_KERNEL || s->kind >= OP_SETPRINTF || s->kind == OP_DEFAULTS) return;
  for (int i = 0; i < npool; i++) if (same_spec(&pool[i].key, s)) return;
  if (npool < 64) build(s, &pool[npool++], 1);
}
static OpInputs *shared_inputs(const OpSpec *s) { for (int i = 0; i < npool; i++) if (same_spec(&pool[i].key, s)) return &pool[i]; return NULL; }

static fnft_nsev_opts_t d_nsev; static fnft_nsev_inverse_opts_t d_inv; static fnft_nsep_opts_t d_nsep; static fnft_kdvv_opts_t d_kdvv; static fnft_manakovv_opts_t d_man;
static const double TOLS[] = {-1, 1e-8, 1e-3, 0};
/* Option values far outside what anybody would ask for. Values that merely request a lot of work are not used. */
static const double ABSR[] = {NAN, INFINITY, -INFINITY, 0, -0.0, -5, 1e300, -1e300, 4.9e-324, 1e-300, 1e18};
static const size_t ABSN[] = {0, 1, 2, 3, 5, 7, 100, (size_t)1 << 31, ((size_t)1 << 31) - 1, (size_t)1 << 32, ((size_t)1 << 32) + 1, (size_t)1 << 40, (size_t)1 << 59, (size_t)1 << 60, (size_t)1 << 63, (size_t)-1, (size_t)-2, (size_t)-1 / 2, (size_t)-1 / 3 + 2, (size_t)-1 / 17 + 1, (size_t)-1 / 33 + 1};
static void absurd(const OpSpec *s, void *v) {
  uint64_t z = rt_mix((uint64_t)s->p[P_ABS], 61); int w = (int)(rnd(&z) % 6); double R = ABSR[rnd(&z) % (sizeof ABSR / sizeof *ABSR)]; size_t N = ABSN[rnd(&z) % (sizeof ABSN / sizeof *ABSN)]; static const int FL[] = {-1, 2, 77, -2147483647 - 1, 2147483647}; int F = FL[rnd(&z) % 5], b = (int)(rnd(&z) % 4); size_t small = rnd(&z) % 3 == 0 ? 0 : 100;
  if (s->kind == OP_NSEVINV && N != (size_t)-1 && rnd(&z) % 3 == 0) N = (size_t)-1 / (size_t)(s->p[P_D] + 1) + 1 + rnd(&z) % 3;
  switch (s->kind) {
    case OP_NSEV: { fnft_nsev_opts_t *o = v; switch (w) { case 0: o->niter = small; break; case 1: o->tol = R; break; case 2: o->Dsub = N; break; case 3: o->bounding_box[b] = R; break; case 4: o->normalization_flag = F; break; default: o->richardson_extrapolation_flag = F; } break; }
    case OP_NSEVINV: { fnft_nsev_inverse_opts_t *o = v; if (w < 4) o->oversampling_factor = N; else if (w == 4) o->max_iter = small; else o->discspec_type = F; break; }
    case OP_NSEP: { fnft_nsep_opts_t *o = v; switch (w) { case 0: o->max_evals = small; break; case 1: o->tol = R; break; case 2: o->Dsub = N; break; case 3: o->bounding_box[b] = R; break; case 4: o->floquet_range[b & 1] = R; break; default: o->points_per_spine = small % 7; } break; }
    case OP_KDVV: { fnft_kdvv_opts_t *o = v; switch (w) { case 0: o->niter = small; break; case 1: o->normalization_flag = F; break; case 2: o->richardson_extrapolation_flag = F; break; default: o->grid_spacing = R; } break; }
    case OP_MANAKOVV: { fnft_manakovv_opts_t *o = v; switch (w) { case 0: case 1: case 2: o->Dsub = N; break; case 3: o->normalization_flag = F; break; case 4: o->niter = small; break; default: o->richardson_extrapolation_flag = F; } break; }
  }
}
static void fill_opts(const OpSpec *s, OpInputs *in) {
  const int *p = s->p; if (p[P_OPTS] == 1) return; int sh = in->shared;
#define MK(T) T *o = rt_ualloc(sizeof(T), sh); memset(o, 0, sizeof *o); in->opts = o; in->optsz = sizeof *o
  switch (s->kind) {
    case OP_NSEV: { MK(fnft_nsev_opts_t); *o = d_nsev; if (p[P_OPTS] == 2) break;
      o->bound_state_filtering = p[P_FILT]; o->bound_state_localization = p[P_LOC]; o->niter = p[P_NITER]; o->tol = TOLS[p[P_TOL] & 3]; o->Dsub = p[P_DSUB]; o->discspec_type = p[P_DST]; o->contspec_type = p[P_CST];
      o->normalization_flag = p[P_NORM]; o->discretization = p[P_DISC]; o->richardson_extrapolation_flag = p[P_RICH];
      if (p[P_FILT] == 3) { o->bounding_box[0] = -2; o->bounding_box[1] = 2; o->bounding_box[2] = 0.01; o->bounding_box[3] = 5; } break; }
    case OP_NSEVINV: { MK(fnft_nsev_inverse_opts_t); *o = d_inv; if (p[P_OPTS] == 2) break;
      o->discretization = p[P_DISC]; o->contspec_type = p[P_CST]; o->contspec_inversion_method = p[P_LOC]; o->discspec_type = p[P_DST]; o->max_iter = p[P_NITER]; o->oversampling_factor = p[P_OSF]; break; }
    case OP_NSEP: { MK(fnft_nsep_opts_t); *o = d_nsep; if (p[P_OPTS] == 2) break;
      o->localization = p[P_LOC]; o->filtering = p[P_FILT]; o->max_evals = p[P_NITER]; o->discretization = p[P_DISC]; o->normalization_flag = p[P_NORM]; o->points_per_spine = p[P_X2]; o->Dsub = p[P_DSUB]; o->tol = TOLS[p[P_TOL] & 3];
      if (p[P_REG]) { static const double FR[8][2] = {{-1, 1}, {-0.5, 0.5}, {0, 0}, {1, -1}, {-1, 0.3}, {1, 1}, {-3, 3}, {-1, 1}}; o->floquet_range[0] = FR[p[P_REG] & 7][0]; o->floquet_range[1] = FR[p[P_REG] & 7][1]; }
      if (p[P_FILT] == 1) { o->bounding_box[0] = -3; o->bounding_box[1] = 3; o->bounding_box[2] = -4; o->bounding_box[3] = 4; } break; }
    case OP_KDVV: { MK(fnft_kdvv_opts_t); *o = d_kdvv; if (p[P_OPTS] == 2) break;
      static const double GS[] = {0.05, 0.2, 0.02, 0.5};
      o->bound_state_localization = p[P_LOC]; o->niter = p[P_NITER]; o->discspec_type = p[P_DST]; o->contspec_type = p[P_CST]; o->normalization_flag = p[P_NORM]; o->discretization = p[P_DISC]; o->richardson_extrapolation_flag = p[P_RICH]; o->grid_spacing = GS[p[P_X1] & 3]; break; }
    case OP_MANAKOVV: { MK(fnft_manakovv_opts_t); *o = d_man; if (p[P_OPTS] == 2) break;
      o->bound_state_filtering = p[P_FILT]; o->bound_state_localization = p[P_LOC]; o->niter = p[P_NITER]; o->Dsub = p[P_DSUB]; o->discspec_type = p[P_DST]; o->contspec_type = p[P_CST]; o->normalization_flag = p[P_NORM]; o->discretization = p[P_DISC]; o->richardson_extrapolation_flag = p[P_RICH]; break; }
  }
  if (p[P_ABS] && p[P_OPTS] == 0) absurd(s, in->opts);
}

/* ------------------------------------------------------------------ message handlers */
#define H(n, body) static FNFT_INT h##n(const char *f, ...) { va_list ap; va_start(ap, f); rt_cb_enter(); rt_message(n, f, ap); va_end(ap); FNFT_INT rv = 0; body; rt_cb_leave(); return rv; }
static __thread int depth_;
static void nested(int fail) {
  if (depth_) return; depth_ = 1;
  static __thread double complex q[16], cs[8], bs[16], nc[16]; static __thread double T[2] = {-3, 3}, XI[2] = {-1, 1}; size_t K = 16;
  for (int i = 0; i < 16; i++) q[i] = 1.0 / cosh((i - 8) * 0.4);
  if (fail) fnft_nsev(1, q, T, 8, cs, XI, &K, bs, nc, 1, NULL); else fnft_nsev(16, q, T, 8, cs, XI, &K, bs, nc, 1, NULL);
  depth_ = 0;
}
H(1, rv = 1)
H(2, rv = 17)
H(3, rv = -1)
H(4, nested(0); rv = 0)
H(5, nested(1); rv = -7)
H(6, fnft_errwarn_setprintf(h1); rv = 3)
H(7, fnft_errwarn_setprintf(NULL); rv = 0)
H(8, (void)fnft_nsev_default_opts(); (void)fnft_kdvv_default_opts(); rv = 2147483647)
H(9, rv = -2147483647 - 1)
H(10, rv = 5)
H(11, rv = 6)
static fnft_printf_ptr_t HND[] = {NULL, h1, h2, h3, h4, h5, h6, h7, h8, h9, h10, h11};
static fnft_printf_ptr_t dflt_ptr;         /* what a fresh thread reads back */
void ops_save_default(void) { dflt_ptr = fnft_errwarn_getprintf(); d_nsev = fnft_nsev_default_opts(); d_inv = fnft_nsev_inverse_default_opts(); d_nsep = fnft_nsep_default_opts(); d_kdvv = fnft_kdvv_default_opts(); d_man = fnft_manakovv_default_opts(); }
static fnft_printf_ptr_t handler_of(int h) { return h == 100 ? dflt_ptr : HND[h]; }
void op_thread_init(int h) { depth_ = 0; if (h >= 0) fnft_errwarn_setprintf(handler_of(h)); }
uint64_t ops_handler_id(fnft_printf_ptr_t f) { for (int i = 0; i < 12; i++) if (HND[i] == f) return i; return f == dflt_ptr ? 100 : 999; }

/* ------------------------------------------------------------------ misuse */
static const char *MISN[5][32] = {
  {"", "D below two", "q missing", "T missing", "T reversed", "T empty", "XI missing", "XI reversed", "kappa zero", "kappa two", "K_ptr missing", "unknown discretization", "unknown contspec type", "unknown localization", "unknown discspec type", "slow discretization with fast eigenvalue", "D zero", "unknown filtering", "bounding box invalid", 0},
  {"", "M below D", "M odd", "D not a power of two", "T missing", "T reversed", "kappa zero", "bound states in defocusing case", "bound states missing", "bound state in lower half plane", "norming constants missing", "unsupported discretization", "nothing to invert", "XI missing", "q missing", "unknown contspec type", "M given but contspec missing", "D one", "kappa two", "unknown inversion method", "seed potential together with a continuous spectrum", "bound state on the real axis", "B(tau) on an asymmetric interval", "B(tau) with M other than D", "iterative inversion with M other than D", "iterative inversion in the focusing case", "B(tau) with another inversion method", 0},
  {"", "D not a power of two", "D below two", "q missing", "T missing", "T reversed", "kappa zero", "K_ptr missing", "M_ptr missing", "sheet indices requested", "filtering without main spectrum", "unknown localization", "unsupported discretization", "T empty", "unknown discretization", "bounding box invalid", 0},
  {"", "D below two", "q missing", "T missing", "T reversed", "T empty", "XI missing", "XI reversed", "K_ptr missing", "unknown discretization", "unknown contspec type", "grid spacing not positive", "unknown localization", "unknown discspec type", "D zero", "samples not real", "frequency zero on the grid", "guess off the imaginary axis", 0},
  {"", "D below two", "q1 missing", "q2 missing", "T missing", "T reversed", "T empty", "XI missing", "XI reversed", "kappa zero", "K_ptr missing", "unknown discretization", "unknown contspec type", "slow discretization with fast eigenvalue", "D zero", "kappa two", 0}};
int op_nmis(int k) { if (k == OP_INVXI) return 6; if (k == OP_DEFAULTS) return 4; if (k > OP_MANAKOVV) return 0; int n = 1; while (MISN[k][n]) n++; return n - 1; }
const char *op_mis_name(int k, int m) { return k <= OP_MANAKOVV && m > 0 && m <= op_nmis(k) ? MISN[k][m] : ""; }

/* ------------------------------------------------------------------ the calls */
static void put(OpRes *r, const void *p, size_t n) { if (!n) return; r->out = realloc(r->out, r->nout + n); memcpy(r->out + r->nout, p, n); r->nout += n; }
typedef struct { void *p; size_t n; void *copy; const char *name; } InArr;
typedef struct { InArr in[10]; int nin; void *own[12]; int nown, nan; } Args;
static void add_in(Args *a, void *p, const char *nm) { if (!p) return; InArr *x = &a->in[a->nin++]; x->p = p; x->n = rt_usize(p); x->copy = malloc(x->n + 1); memcpy(x->copy, p, x->n); x->name = nm; }
static void *add_out(Args *a, size_t n) { void *p = rt_ualloc(n, 0); if (a->nan) memset(p, 0xff, n); a->own[a->nown++] = p; return p; }    /* P_GARB: filled with not-a-numbers */

/* values outside an enumeration, last = its last valid value */
static int bad(const OpSpec *s, int last) { switch ((s->dseed >> 4) & 3) { case 0: return last + 1; case 1: return last + 2; case 2: return -1; default: return 77; } }

static size_t bad_at(const OpSpec *s, size_t n) { switch ((s->dseed >> 6) & 3) { case 0: return 0; case 1: return n - 1; default: return (s->dseed >> 8) % n; } }     /* which one of n values is the bad one */
static void bad_box(const OpSpec *s, double *b) { b[0] = -2; b[1] = 2; b[2] = -3; b[3] = 3; int w = (s->dseed >> 4) & 3; if (s->dseed & 1) b[w] = NAN; else if (w & 1) { b[0] = 2; b[1] = 1; } else { b[2] = 3; b[3] = 1; } }

static double complex *newton_guess(const OpSpec *s, double complex *b, int n) {
  uint64_t z = rt_mix(s->dseed, 41); double A = amp(s);
  for (int i = 0; i < n; i++) {
    double y = s->kind == OP_KDVV ? 0.2 + (A) * (double)(i + 1) / (n + 1) : A - 0.5 - i; if (y < 0.05) y = 0.1 + U(z);
    if (s->kind == OP_KDVV) b[i] = I * (y + 0.05 * U(z)); else b[i] = 0.1 * (U(z) - 0.5) + I * (y + 0.1 * (U(z) - 0.5));
    if (s->kind == OP_NSEP) b[i] = (2 * U(z) - 1) + I * ((i & 1) ? 1 : -1) * A * U(z);
  }
  return b;
}

void op_run(const OpSpec *s, int idx, const RtFault *f, int nf, uint64_t lim, int protect, OpRes *r) {
  const int *p = s->p; int k = s->kind; memset(r, 0, sizeof *r); rt_set_op(idx); rt_set_fpe(p[P_FPE]);
  if (k == OP_KERNEL) { kernel_op(s, f, nf, lim, protect, r); return; }
  if (k == OP_MEX) { mex_op(s, f, nf, lim, r); return; }
  OpInputs priv, *in = p[P_SHARE] ? shared_inputs(s) : NULL; int own_in = 0;
  Args a; memset(&a, 0, sizeof a); a.nan = p[P_GARB];
  if (k <= OP_INVXI && !in) { build(s, &priv, 0); in = &priv; own_in = 1; } else if (!in) { memset(&priv, 0, sizeof priv); in = &priv; }
  if (k <= OP_INVXI) {
    add_in(&a, in->q, k == OP_MANAKOVV ? "q1" : "q"); add_in(&a, in->q2, "q2"); add_in(&a, in->T, "T"); add_in(&a, in->XI, "XI"); add_in(&a, in->opts, "the options record");
    add_in(&a, in->g1, "bound_states"); add_in(&a, in->g2, "normconsts_or_residues");
  }
  /* arguments */
  size_t D = p[P_D] > 0 ? p[P_D] : 0, M = p[P_M] > 0 ? p[P_M] : 0, cap = p[P_K] > 0 ? p[P_K] : 0; int out = p[P_OUT], mis = p[P_MIS], kap = p[P_KAPPA];
  double complex *cs = NULL, *bs = NULL, *nc = NULL; size_t *Kp = NULL, *Mp = NULL; size_t ncs = 0, nbs = 0, nnc = 0;
  double complex *q = in->q, *q2 = in->q2; double *T = in->T, *XI = in->XI; void *opts = in->opts; double *XIout = NULL;
  int cst = p[P_OPTS] ? 0 : p[P_CST], dst = p[P_OPTS] ? 0 : p[P_DST];
  fnft_nsev_opts_t *on = opts; fnft_kdvv_opts_t *ok = opts; fnft_manakovv_opts_t *om = opts; fnft_nsep_opts_t *op = opts; fnft_nsev_inverse_opts_t *oi = opts;
  double complex *bsin = in->g1, *ncin = in->g2; double shift = 0; double *sheet = NULL; void *defs = NULL; void *mopt = NULL;
#define OWNOPT(T) do { T *x = rt_ualloc(sizeof(T), 0); if (opts) *x = *(T *)opts; else *x = *(T *)(defs = &(T){0}); a.own[a.nown++] = x; mopt = x; } while (0)
  switch (k) {
    case OP_NSEV: case OP_KDVV: case OP_MANAKOVV: {
      if (out & 1) { ncs = M * (k == OP_MANAKOVV ? (cst == 0 ? 2 : cst == 1 ? 3 : 5) : (cst == 0 ? 1 : cst == 1 ? 2 : 3)); cs = add_out(&a, 16 * ncs); }
      if (out & 2) { nbs = cap; bs = add_out(&a, 16 * nbs); if (p[P_OPTS] != 1 ? (k == OP_NSEV ? on->bound_state_localization == fnft_nsev_bsloc_NEWTON : k == OP_KDVV ? ok->bound_state_localization == fnft_kdvv_bsloc_NEWTON : 0) : k == OP_KDVV && d_kdvv.bound_state_localization == fnft_kdvv_bsloc_NEWTON) { newton_guess(s, bs, (int)nbs); if (p[P_COR] && op_cor_target(s) == 7) corrupt(p[P_COR], (double *)bs, 2 * nbs, 0); } }
      if (out & 4) { nnc = cap * (dst == 2 ? 2 : 1); nc = add_out(&a, 16 * nnc); }
      if ((out & 2) || p[P_X3]) { Kp = add_out(&a, sizeof *Kp); *Kp = cap; }
      if (!(out & 1) && (p[P_X2] & 1)) { XI = NULL; }
      if (mis && k == OP_NSEV) {
        switch (mis) { case 1: D = 1; break; case 2: q = NULL; break; case 3: T = NULL; break; case 8: kap = 0; break; case 9: kap = 2; break; case 16: D = 0; break;
          case 4: T = add_out(&a, 16); T[0] = 3; T[1] = -3; break; case 5: T = add_out(&a, 16); T[0] = T[1] = 1; break;
          case 6: XI = NULL; break; case 7: XI = add_out(&a, 16); XI[0] = 2; XI[1] = 1; break; case 10: Kp = NULL; break; }
        if (mis >= 11 && mis != 16) { OWNOPT(fnft_nsev_opts_t); fnft_nsev_opts_t *o = mopt; if (!opts) *o = d_nsev; opts = o;
          if (mis == 11) o->discretization = bad(s, 27); if (mis == 12) o->contspec_type = bad(s, 2); if (mis == 13) o->bound_state_localization = bad(s, 2); if (mis == 14) o->discspec_type = bad(s, 2); if (mis == 15) { o->discretization = fnft_nse_discretization_CF4_2; o->bound_state_localization = fnft_nsev_bsloc_FAST_EIGENVALUE; } if (mis == 17) o->bound_state_filtering = bad(s, 3);
          if (mis == 18) { o->bound_state_filtering = fnft_nsev_bsfilt_MANUAL; bad_box(s, o->bounding_box); } }
      }
      if (mis && k == OP_KDVV) {
        switch (mis) { case 1: D = 1; break; case 2: q = NULL; break; case 3: T = NULL; break; case 14: D = 0; break;
          case 4: T = add_out(&a, 16); T[0] = 3; T[1] = -3; break; case 5: T = add_out(&a, 16); T[0] = T[1] = 1; break;
          case 6: XI = NULL; break; case 7: XI = add_out(&a, 16); XI[0] = 2; XI[1] = 1; break; case 8: Kp = NULL; break; }
        if (mis >= 9 && mis != 14) { OWNOPT(fnft_kdvv_opts_t); fnft_kdvv_opts_t *o = mopt; if (!opts) *o = d_kdvv; opts = o;
          if (mis == 9) o->discretization = bad(s, 55); if (mis == 10) o->contspec_type = bad(s, 2); if (mis == 11) { o->bound_state_localization = fnft_kdvv_bsloc_GRIDSEARCH_AND_REFINE; o->grid_spacing = (p[P_X1] & 1) ? 0 : -0.1; } if (mis == 12) o->bound_state_localization = bad(s, 1); if (mis == 13) o->discspec_type = bad(s, 2);
          if (mis == 15) { double complex *c = add_out(&a, 16 * D); memcpy(c, q, 16 * D); c[bad_at(s, D)] += I * (s->dseed & 1 ? 0.3 : 1e-12); q = c; } if (mis == 16) { XI = add_out(&a, 16); XI[0] = -1; XI[1] = 1; if (M < 2 || s->dseed % 3 == 0) { if (M < 2) { M = 2; ncs = M * 3; cs = add_out(&a, 16 * ncs); } XI[0] = 0; } else if (M % 2 == 0 || s->dseed % 3 == 1) { XI[1] = 0; } }
          if (mis == 17) { o->bound_state_localization = fnft_kdvv_bsloc_NEWTON; newton_guess(s, bs, (int)nbs); size_t j = bad_at(s, nbs); switch (s->dseed & 3) { case 0: bs[j] += 0.01; break; case 1: bs[j] = -bs[j]; break; case 2: bs[j] = 0; break; default: bs[j] = 0.5; } } }
      }
      if (mis && k == OP_MANAKOVV) {
        switch (mis) { case 1: D = 1; break; case 2: q = NULL; break; case 3: q2 = NULL; break; case 4: T = NULL; break; case 14: D = 0; break; case 9: kap = 0; break; case 15: kap = 2; break;
          case 5: T = add_out(&a, 16); T[0] = 3; T[1] = -3; break; case 6: T = add_out(&a, 16); T[0] = T[1] = 1; break;
          case 7: XI = NULL; break; case 8: XI = add_out(&a, 16); XI[0] = 2; XI[1] = 1; break; case 10: Kp = NULL; break; }
        if (mis >= 11 && mis <= 13) { OWNOPT(fnft_manakovv_opts_t); fnft_manakovv_opts_t *o = mopt; if (!opts) *o = d_man; opts = o;
          if (mis == 11) o->discretization = bad(s, 12); if (mis == 12) o->contspec_type = bad(s, 2); if (mis == 13) { o->discretization = fnft_manakov_discretization_BO; o->bound_state_localization = fnft_manakovv_bsloc_FAST_EIGENVALUE; } }
      }
      break; }
    case OP_NSEVINV: {
      q = add_out(&a, 16 * D);
      int seedpot = p[P_OPTS] != 1 && oi->contspec_inversion_method == fnft_nsev_inverse_csmethod_USE_SEED_POTENTIAL_INSTEAD;
      if (seedpot) { OpSpec t = *s; t.kind = OP_NSEV; signal_(&t, T, q, NULL); for (size_t i = 0; i < D; i++) q[i] *= 0.3; }
      if (out & 1) { cs = add_out(&a, 16 * M); uint64_t z = rt_mix(s->dseed, 47); double A = kap == 1 ? 0.2 + 2 * U(z) : 0.1 + 0.7 * U(z), c = U(z) - 0.5, w = 0.5 + U(z);
        for (size_t i = 0; i < M; i++) { double x = XI[0] + (M > 1 ? i * (XI[1] - XI[0]) / (M - 1) : 0); if (p[P_SIG] % 3 == 0) cs[i] = A * exp(-x * x / w) * cexp(I * c * x); else if (p[P_SIG] % 3 == 1) cs[i] = A / (1 + x * x) * (1 + I * c); else cs[i] = 0.1 * A * ((U(z) - 0.5) + I * (U(z) - 0.5)); if (cst == 1) cs[i] *= 0.4; if (cst == 2) cs[i] *= 0.2; }
        if (p[P_COR] && op_cor_target(s) >= 4) corrupt(p[P_COR], (double *)cs, 2 * M, 0); }
      else M = 0;
      if (mis) {
        switch (mis) { case 1: if (!cs) { cs = add_out(&a, 16 * D); memset(cs, 0, 16 * D); } M = D / 2; break; case 2: if (!cs) cs = add_out(&a, 16 * (D + 1)); M = D + 1; break; case 3: D = D + 1; break; case 4: T = NULL; break; case 6: kap = 0; break; case 18: kap = 2; break;
          case 5: T = add_out(&a, 16); T[0] = 3; T[1] = -3; break; case 7: kap = -1; if (!cap) { cap = 1; bsin = add_out(&a, 16); ncin = add_out(&a, 16); bsin[0] = I; ncin[0] = 1; } break;
          case 8: if (!cap) cap = 1; kap = 1; bsin = NULL; if (!ncin) { ncin = add_out(&a, 16); ncin[0] = 1; } break;
          case 9: cap = 1; kap = 1; bsin = add_out(&a, 16); bsin[0] = 0.2 - 0.5 * I; if (!ncin) { ncin = add_out(&a, 16); ncin[0] = 1; } break;
          case 10: if (!cap) { cap = 1; bsin = add_out(&a, 16); bsin[0] = I; } kap = 1; ncin = NULL; break;
          case 12: cs = NULL; M = 0; cap = 0; break; case 13: if (!cs) { M = D; cs = add_out(&a, 16 * M); memset(cs, 0, 16 * M); } XI = NULL; break; case 14: q = NULL; break; case 16: M = D; cs = NULL; break; case 17: D = 1; break; }
        if (mis == 21) { cap = 3; kap = 1; bsin = add_out(&a, 48); ncin = add_out(&a, 48); for (int i = 0; i < 3; i++) { bsin[i] = 0.1 * i + I * (0.4 + 0.3 * i); ncin[i] = 1; } bsin[bad_at(s, 3)] = 0.25; }
        if (mis >= 22 && mis <= 26) { cap = 0; bsin = ncin = NULL; M = D; if (mis == 23 || mis == 24) M = 2 * D; if (mis == 22) { T = add_out(&a, 16); T[0] = -3; T[1] = 4; } else if (mis == 23 || mis == 26) { T = add_out(&a, 16); T[0] = -4; T[1] = 4; } kap = mis == 25 ? 1 : mis == 24 ? -1 : kap; cs = add_out(&a, 16 * M); for (size_t i = 0; i < M; i++) cs[i] = 0.01;
          OWNOPT(fnft_nsev_inverse_opts_t); fnft_nsev_inverse_opts_t *o = mopt; if (!opts) *o = d_inv; opts = o; o->contspec_inversion_method = fnft_nsev_inverse_csmethod_DEFAULT; o->contspec_type = fnft_nsev_inverse_cstype_B_OF_TAU; if (mis == 26) o->contspec_inversion_method = fnft_nsev_inverse_csmethod_TFMATRIX_CONTAINS_REFL_COEFF; if (mis == 24 || mis == 25) { o->contspec_type = fnft_nsev_inverse_cstype_REFLECTION_COEFFICIENT; o->contspec_inversion_method = fnft_nsev_inverse_csmethod_TFMATRIX_CONTAINS_AB_FROM_ITER; } }
        if (mis == 11 || mis == 13 || mis == 15 || mis == 19 || mis == 20) { OWNOPT(fnft_nsev_inverse_opts_t); fnft_nsev_inverse_opts_t *o = mopt; if (!opts) *o = d_inv; opts = o;
          if (mis == 11) o->discretization = (p[P_DISC] & 1) ? fnft_nse_discretization_2SPLIT4B : fnft_nse_discretization_BO; if (mis == 20) { kap = 1; if (!cs) { M = D; cs = add_out(&a, 16 * M); memset(cs, 0, 16 * M); } if (!cap) { cap = 1; bsin = add_out(&a, 16); ncin = add_out(&a, 16); bsin[0] = I; ncin[0] = 1; } o->contspec_inversion_method = fnft_nsev_inverse_csmethod_USE_SEED_POTENTIAL_INSTEAD; if (o->contspec_type > 1) o->contspec_type = p[P_DISC] & 1; }
          if (mis == 13) o->contspec_type = fnft_nsev_inverse_cstype_REFLECTION_COEFFICIENT;
          if (mis == 15) { o->contspec_type = bad(s, 2); if (!cs) { M = D; cs = add_out(&a, 16 * M); memset(cs, 0, 16 * M); } } if (mis == 19) { o->contspec_inversion_method = bad(s, 3); o->contspec_type = fnft_nsev_inverse_cstype_REFLECTION_COEFFICIENT; if (!cs) { M = D; cs = add_out(&a, 16 * M); memset(cs, 0, 16 * M); } } }
      }
      break; }
    case OP_NSEP: {
      int newt = p[P_OPTS] != 1 && op->localization == fnft_nsep_loc_NEWTON; size_t pps = p[P_OPTS] != 1 ? op->points_per_spine : 2;
      if (out & 1) { nbs = cap * (newt ? pps : 1); bs = add_out(&a, 16 * nbs); if (newt) { newton_guess(s, bs, (int)nbs); if (p[P_COR] && op_cor_target(s) == 7) corrupt(p[P_COR], (double *)bs, 2 * nbs, 0); } }
      if (out & 2) { nnc = M; nc = add_out(&a, 16 * M); if (newt) newton_guess(s, nc, (int)M); }
      Kp = add_out(&a, sizeof *Kp); *Kp = cap; Mp = add_out(&a, sizeof *Mp); *Mp = M; shift = (p[P_X3] & 3) == 0 ? 0 : (p[P_X3] & 3) == 1 ? 0.7 : (p[P_X3] & 3) == 2 ? -1.3 : 0;
      if (mis) {
        switch (mis) { case 1: D = D > 3 ? D - 1 : 3; if (D > (size_t)p[P_D]) D = 0; break; case 2: D = (p[P_DISC] & 1); break; case 3: q = NULL; break; case 4: T = NULL; break; case 6: kap = 0; break; case 7: Kp = NULL; break; case 8: Mp = NULL; break;
          case 5: T = add_out(&a, 16); T[0] = 3; T[1] = -3; break; case 13: T = add_out(&a, 16); T[0] = T[1] = 1; break; case 9: sheet = add_out(&a, 8 * (M + 1)); break;
          case 10: bs = NULL; if (!nc) { *Mp = M = 4; nnc = 4; nc = add_out(&a, 64); } break; }
        if (mis == 10 || mis == 11 || mis == 12 || mis == 14 || mis == 15) { OWNOPT(fnft_nsep_opts_t); fnft_nsep_opts_t *o = mopt; if (!opts) *o = d_nsep; opts = o;
          if (mis == 10) { o->filtering = (p[P_DISC] & 1) ? fnft_nsep_filt_AUTO : fnft_nsep_filt_MANUAL; } if (mis == 11) o->localization = bad(s, 3); if (mis == 12) { o->discretization = fnft_nse_discretization_CF4_2; o->localization = (p[P_DISC] & 1) ? fnft_nsep_loc_GRIDSEARCH : fnft_nsep_loc_SUBSAMPLE_AND_REFINE; } if (mis == 14) o->discretization = bad(s, 27); if (mis == 15) { o->filtering = fnft_nsep_filt_MANUAL; bad_box(s, o->bounding_box); } }
      }
      break; }
    case OP_INVXI: XIout = add_out(&a, 16); if (mis) { switch (mis) { case 1: D = s->dseed & 1; break; case 2: T = NULL; break; case 3: XIout = NULL; break; case 4: M = 0; break; case 5: T = add_out(&a, 16); T[0] = 3; T[1] = -3; break; default: T = add_out(&a, 16); T[0] = T[1] = 1; } } break;
    case OP_DEFAULTS: break;
  }
  if (protect) for (int i = 0; i < a.nin; i++) rt_uprotect(a.in[i].p, 1);
  rt_set_faults(f, nf); rt_set_step_limit(lim);
  volatile int ret = 0; int jmp;
  struct { fnft_nsev_opts_t a; fnft_kdvv_opts_t b; fnft_manakovv_opts_t c; fnft_nsep_opts_t d; fnft_nsev_inverse_opts_t e; size_t k1, k2; size_t v[3]; char suf[40]; } df; memset(&df, 0, sizeof df);
  if ((jmp = sigsetjmp(*rt_jb(), 1)) == 0) {
    rt_enter(); rt_scribble();
    switch (k) {
      case OP_NSEV: ret = fnft_nsev(D, q, T, M, cs, XI, Kp, bs, nc, kap, opts); r->maxK = fnft_nsev_max_K(D, opts); break;
      case OP_KDVV: ret = fnft_kdvv(D, q, T, M, cs, XI, Kp, bs, nc, opts); break;
      case OP_MANAKOVV: ret = fnft_manakovv(D, q, q2, T, M, cs, XI, Kp, bs, nc, kap, opts); r->maxK = fnft_manakovv_max_K(D, opts); break;
      case OP_NSEP: ret = fnft_nsep(D, q, T, shift, Kp, bs, Mp, nc, sheet, kap, opts); break;
      case OP_NSEVINV: ret = fnft_nsev_inverse(M, cs, XI, cap, bsin, ncin, D, q, T, kap, opts); break;
      case OP_INVXI: ret = fnft_nsev_inverse_XI(D, T, M, XIout, p[P_DISC]); break;
      case OP_DEFAULTS: if (mis) { ret = fnft_version(mis == 1 ? NULL : &df.v[0], mis == 2 ? NULL : &df.v[1], mis == 3 ? NULL : &df.v[2], mis == 4 ? NULL : df.suf); break; } df.a = fnft_nsev_default_opts(); df.b = fnft_kdvv_default_opts(); df.c = fnft_manakovv_default_opts(); df.d = fnft_nsep_default_opts(); df.e = fnft_nsev_inverse_default_opts();
        df.k1 = fnft_nsev_max_K(p[P_D], NULL); df.k2 = fnft_manakovv_max_K(p[P_D], &df.c); fnft_version(&df.v[0], &df.v[1], &df.v[2], df.suf); break;
      case OP_SETPRINTF: fnft_errwarn_setprintf(handler_of(p[P_X1])); break;
      case OP_GETPRINTF: r->handle = ops_handler_id(fnft_errwarn_getprintf()); break;
    }
    r->done = 1; r->ret = ret;
  } else r->aborted = rt_aborted();
  rt_leave();
  op_collect(r, 0);
  for (int i = 0; i < a.nin; i++) {
    if (protect) rt_uprotect(a.in[i].p, 0);
    if (memcmp(a.in[i].p, a.in[i].copy, a.in[i].n) && !r->changed) { size_t o = 0; while (((char *)a.in[i].p)[o] == ((char *)a.in[i].copy)[o]) o++; r->changed = 1; snprintf(r->what, sizeof r->what, "%s (byte %zu of %zu)", a.in[i].name, o, a.in[i].n); }
    free(a.in[i].copy);
  }
  r->capK = nbs; r->capM = nnc; if (k <= OP_MANAKOVV && k != OP_NSEVINV && XI && r->done && ret == 0 && (p[P_OUT] & 1)) memcpy(r->XI, XI, 16);
  if (r->done && ret == 0) {
    switch (k) {
      case OP_NSEV: case OP_KDVV: case OP_MANAKOVV:
        if (cs) { put(r, cs, 16 * ncs); r->ncs = 16 * ncs; }
        if (Kp && bs) {
          r->K = *Kp; put(r, Kp, sizeof *Kp); size_t n = r->K > nbs ? nbs : r->K;
          if (bs) { put(r, bs, 16 * n); r->nbs = (int)n; r->bs = malloc(16 * n + 1); memcpy(r->bs, bs, 16 * n); }
          if (nc && bs && k != OP_MANAKOVV) { size_t m = n * (dst == 2 ? 2 : 1); put(r, nc, 16 * m); r->nnc = (int)m; r->nc = malloc(16 * m + 1); memcpy(r->nc, nc, 16 * m); }
        }
        break;
      case OP_NSEP: {
        size_t pps = opts ? op->points_per_spine : 2; int newt = opts && op->localization == fnft_nsep_loc_NEWTON; (void)pps;
        if (bs) { r->K = *Kp; size_t n = newt ? nbs : r->K > nbs ? nbs : r->K; put(r, Kp, sizeof *Kp); put(r, bs, 16 * n); r->nbs = (int)n; r->bs = malloc(16 * n + 1); memcpy(r->bs, bs, 16 * n); }
        if (nc) { r->M = *Mp; size_t n = r->M > nnc ? nnc : r->M; put(r, Mp, sizeof *Mp); put(r, nc, 16 * n); r->nnc = (int)n; r->nc = malloc(16 * n + 1); memcpy(r->nc, nc, 16 * n); }
        break; }
      case OP_NSEVINV: put(r, q, 16 * D); break;
      case OP_INVXI: put(r, XIout, 16); break;
      case OP_GETPRINTF: put(r, &r->handle, 8); break;
      case OP_DEFAULTS: { if (mis) break;
        double v[64]; int n = 0;
        v[n++] = df.a.bound_state_filtering; v[n++] = df.a.bound_state_localization; v[n++] = df.a.niter; v[n++] = df.a.tol; v[n++] = df.a.Dsub; v[n++] = df.a.discspec_type; v[n++] = df.a.contspec_type; v[n++] = df.a.normalization_flag; v[n++] = df.a.discretization; v[n++] = df.a.richardson_extrapolation_flag; for (int i = 0; i < 4; i++) v[n++] = isnan(df.a.bounding_box[i]) ? -77 : df.a.bounding_box[i];
        v[n++] = df.b.bound_state_localization; v[n++] = df.b.niter; v[n++] = df.b.discspec_type; v[n++] = df.b.contspec_type; v[n++] = df.b.normalization_flag; v[n++] = df.b.discretization; v[n++] = df.b.richardson_extrapolation_flag; v[n++] = df.b.grid_spacing;
        v[n++] = df.c.bound_state_filtering; v[n++] = df.c.bound_state_localization; v[n++] = df.c.niter; v[n++] = df.c.Dsub; v[n++] = df.c.discspec_type; v[n++] = df.c.contspec_type; v[n++] = df.c.normalization_flag; v[n++] = df.c.discretization; v[n++] = df.c.richardson_extrapolation_flag;
        v[n++] = df.d.localization; v[n++] = df.d.filtering; for (int i = 0; i < 4; i++) v[n++] = df.d.bounding_box[i]; v[n++] = df.d.max_evals; v[n++] = df.d.discretization; v[n++] = df.d.normalization_flag; v[n++] = df.d.floquet_range[0]; v[n++] = df.d.floquet_range[1]; v[n++] = df.d.points_per_spine; v[n++] = df.d.Dsub; v[n++] = df.d.tol;
        v[n++] = df.e.discretization; v[n++] = df.e.contspec_type; v[n++] = df.e.contspec_inversion_method; v[n++] = df.e.discspec_type; v[n++] = df.e.max_iter; v[n++] = df.e.oversampling_factor;
        v[n++] = df.k1; v[n++] = df.k2; v[n++] = df.v[0]; v[n++] = df.v[1]; v[n++] = df.v[2]; v[n++] = strlen(df.suf);
        {                                     /* the documented values, in the same order (headers of the transforms) */
          const double doc[] = { fnft_nsev_bsfilt_FULL, fnft_nsev_bsloc_SUBSAMPLE_AND_REFINE, 100, -1, 0, fnft_nsev_dstype_NORMING_CONSTANTS, fnft_nsev_cstype_REFLECTION_COEFFICIENT, 1, fnft_nse_discretization_2SPLIT4B, 0, -77, -77, -77, -77,
            fnft_kdvv_bsloc_GRIDSEARCH_AND_REFINE, 10, fnft_kdvv_dstype_NORMING_CONSTANTS, fnft_kdvv_cstype_REFLECTION_COEFFICIENT, 1, fnft_kdv_discretization_2SPLIT4B, 0, 0,
            fnft_manakovv_bsfilt_FULL, fnft_manakovv_bsloc_SUBSAMPLE_AND_REFINE, 10, 0, fnft_manakovv_dstype_NORMING_CONSTANTS, fnft_manakovv_cstype_REFLECTION_COEFFICIENT, 1, fnft_manakov_discretization_2SPLIT4B, 0,
            fnft_nsep_loc_SUBSAMPLE_AND_REFINE, fnft_nsep_filt_AUTO, -INFINITY, INFINITY, -INFINITY, INFINITY, 50, fnft_nse_discretization_2SPLIT2A, 1, -1, 1, 2, 0, -1,
            fnft_nse_discretization_2SPLIT2A, fnft_nsev_inverse_cstype_REFLECTION_COEFFICIENT, fnft_nsev_inverse_csmethod_DEFAULT, fnft_nsev_inverse_dstype_NORMING_CONSTANTS, 100, 8 };
          static const char *nm[] = { "fnft_nsev: bound_state_filtering", "fnft_nsev: bound_state_localization", "fnft_nsev: niter", "fnft_nsev: tol", "fnft_nsev: Dsub", "fnft_nsev: discspec_type", "fnft_nsev: contspec_type", "fnft_nsev: normalization_flag", "fnft_nsev: discretization", "fnft_nsev: richardson_extrapolation_flag", "fnft_nsev: bounding_box", "fnft_nsev: bounding_box", "fnft_nsev: bounding_box", "fnft_nsev: bounding_box",
            "fnft_kdvv: bound_state_localization", "fnft_kdvv: niter", "fnft_kdvv: discspec_type", "fnft_kdvv: contspec_type", "fnft_kdvv: normalization_flag", "fnft_kdvv: discretization", "fnft_kdvv: richardson_extrapolation_flag", "fnft_kdvv: grid_spacing",
            "fnft_manakovv: bound_state_filtering", "fnft_manakovv: bound_state_localization", "fnft_manakovv: niter", "fnft_manakovv: Dsub", "fnft_manakovv: discspec_type", "fnft_manakovv: contspec_type", "fnft_manakovv: normalization_flag", "fnft_manakovv: discretization", "fnft_manakovv: richardson_extrapolation_flag",
            "fnft_nsep: localization", "fnft_nsep: filtering", "fnft_nsep: bounding_box", "fnft_nsep: bounding_box", "fnft_nsep: bounding_box", "fnft_nsep: bounding_box", "fnft_nsep: max_evals", "fnft_nsep: discretization", "fnft_nsep: normalization_flag", "fnft_nsep: floquet_range", "fnft_nsep: floquet_range", "fnft_nsep: points_per_spine", "fnft_nsep: Dsub", "fnft_nsep: tol",
            "fnft_nsev_inverse: discretization", "fnft_nsev_inverse: contspec_type", "fnft_nsev_inverse: contspec_inversion_method", "fnft_nsev_inverse: discspec_type", "fnft_nsev_inverse: max_iter", "fnft_nsev_inverse: oversampling_factor" };
          for (size_t i = 0; i < sizeof doc / sizeof *doc; i++) if (v[i] != doc[i] && !r->what[0]) { r->baddef = 1; snprintf(r->what, sizeof r->what, "%s is %g, documented is %g", nm[i], v[i], doc[i]); }
        }
        put(r, v, sizeof(double) * n); break; }
    }
  }
  for (int i = 0; i < a.nown; i++) rt_ufree(a.own[i]);
  if (own_in) { rt_ufree(in->q); rt_ufree(in->q2); rt_ufree(in->T); rt_ufree(in->XI); rt_ufree(in->opts); rt_ufree(in->g1); rt_ufree(in->g2); }
}
/* statistics, leaks and allocation contexts of the call just made */
void op_collect(OpRes *r, int64_t allowed) {
  rt_call_stats(&r->cs);
  r->leak_blocks = r->cs.live_blocks - allowed; if (r->leak_blocks > 0 && r->done) rt_leak_sites(r->leak, sizeof r->leak);
  rt_free_leaks();
  const uint64_t *c; r->nctx = rt_alloc_sites(&c); r->ctx = malloc(8 * (size_t)r->nctx + 8); memcpy(r->ctx, c, 8 * (size_t)r->nctx);
  r->nfctx = rt_fault_sites(&c); r->fctx = malloc(8 * (size_t)r->nfctx + 8); memcpy(r->fctx, c, 8 * (size_t)r->nfctx);
  const uint32_t *z; r->nasz = rt_alloc_sizes(&z); r->asz = malloc(4 * (size_t)r->nasz + 4); memcpy(r->asz, z, 4 * (size_t)r->nasz);
}
void op_put(OpRes *r, const void *p, size_t n) { put(r, p, n); }
void op_res_free(OpRes *r) { free(r->out); free(r->bs); free(r->nc); free(r->ctx); free(r->fctx); free(r->asz); memset(r, 0, sizeof *r); }
