/* A simulated MATLAB/Octave host for the gateways in matlab/.  Arrays, the managed memory of a MEX
 * call, error unwinding and the command window are the host's; the gateways and the library are real.
 * Calls of the library by a gateway pass a shim, which compares what the gateway passes with what the
 * script asked for and remembers what the library answered. */
#include "opsint.h"
#define FNFT_ENABLE_SHORT_NAMES
#include "mex.h"
#include "fnft_nsev.h"
#include "fnft_nsev_inverse.h"
#include "fnft_nsep.h"
#include "fnft_kdvv.h"
#include "fnft_manakovv.h"
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <math.h>
#include <complex.h>
#define GW(n) void mexFunction_mex_##n(int, mxArray **, int, const mxArray **) __attribute__((weak))
GW(fnft_nsev); GW(fnft_kdvv); GW(fnft_manakovv); GW(fnft_nsep); GW(fnft_nsev_inverse); GW(fnft_nsev_inverse_XI); GW(fnft_version);
void *sim_malloc(size_t n); void *sim_calloc(size_t a, size_t b); void *sim_realloc(void *p, size_t n); void sim_free(void *p);
enum { G_NSEV, G_KDVV, G_MAN, G_NSEP, G_INV, G_XI, G_VER, NG };
static const char *NAMES[NG] = {"mex_fnft_nsev", "mex_fnft_kdvv", "mex_fnft_manakovv", "mex_fnft_nsep", "mex_fnft_nsev_inverse", "mex_fnft_nsev_inverse_XI", "mex_fnft_version"};
static const int NOUT[NG] = {3, 3, 1, 2, 1, 2, 4};
int mex_count(void) { return mexFunction_mex_fnft_nsev ? NG : 0; }
const char *mex_name(int k) { return k >= 0 && k < NG ? NAMES[k] : "?"; }

/* ---------------------------------------------------------------- arrays and managed memory */
struct mxArray_tag { int cls, cplx, in, live; size_t m, n; void *pr, *pi; mwSize dims[2]; };
static mxArray *ins[80]; static int nins;
static mxArray *outs[64]; static int nouts;
static void *man[256], *strs[256]; static int nman, nstrs;         /* managed memory; strings are left to the host by the gateways */
static int host_strict, errored; static char errtxt[200]; static int nprinted;
static size_t esz(int c) { switch (c) { case mxDOUBLE_CLASS: case mxCELL_CLASS: case mxINT64_CLASS: case mxUINT64_CLASS: case mxFUNCTION_CLASS: case mxSTRUCT_CLASS: return 8; case mxSINGLE_CLASS: case mxINT32_CLASS: case mxUINT32_CLASS: return 4; case mxCHAR_CLASS: case mxINT16_CLASS: case mxUINT16_CLASS: return 2; default: return 1; } }
static void unwind(const char *m) { if (!errored) { errored = 1; snprintf(errtxt, sizeof errtxt, "%s", m ? m : "(no text)"); } siglongjmp(*rt_jb(), 2); }
static void hostbug(const char *f) { rt_violation(VK_CRASH, "the gateway calls %s for an array it is not defined for", f); errored = 1; snprintf(errtxt, sizeof errtxt, "host crash"); siglongjmp(*rt_jb(), 2); }
#define CK(a) do { if (!(a)) hostbug(__func__); } while (0)
static void manage(void *p) { if (nman < 256) man[nman++] = p; }
static void unmanage(void *p) { for (int i = 0; i < nman; i++) if (man[i] == p) { man[i] = man[--nman]; return; } }
static void *managed(void *p, int create) { if (!p) { if (host_strict || create) unwind("Out of memory (host)."); return NULL; } manage(p); return p; }
void *mxMalloc(size_t n) { return managed(sim_malloc(n), 0); }
void *mxCalloc(size_t a, size_t b) { return managed(sim_calloc(a, b), 0); }
void *mxRealloc(void *p, size_t n) { void *q = sim_realloc(p, n); if (q) { if (p) unmanage(p); manage(q); return q; } return managed(NULL, 0); }
void mxFree(void *p) { if (!p) return; int k = nman; unmanage(p); if (k == nman) { rt_violation(VK_BADFREE, "mxFree of a pointer that is not managed memory of this call"); return; } sim_free(p); }
static int is_str(const void *p) { for (int i = 0; i < nstrs; i++) if (strs[i] == p) return 1; return 0; }
bool mxIsComplex(const mxArray *a) { CK(a); return a->cplx; }
#define ISC(f, c) bool f(const mxArray *a) { CK(a); return a->cls == c; }
ISC(mxIsDouble, mxDOUBLE_CLASS) ISC(mxIsSingle, mxSINGLE_CLASS) ISC(mxIsChar, mxCHAR_CLASS) ISC(mxIsLogical, mxLOGICAL_CLASS) ISC(mxIsCell, mxCELL_CLASS) ISC(mxIsStruct, mxSTRUCT_CLASS) ISC(mxIsInt32, mxINT32_CLASS)
bool mxIsNumeric(const mxArray *a) { CK(a); return a->cls >= mxDOUBLE_CLASS && a->cls <= mxUINT64_CLASS; }
bool mxIsSparse(const mxArray *a) { CK(a); return 0; }
bool mxIsEmpty(const mxArray *a) { CK(a); return a->m * a->n == 0; }
bool mxIsScalar(const mxArray *a) { CK(a); return a->m == 1 && a->n == 1; }
bool mxIsLogicalScalar(const mxArray *a) { CK(a); return a->cls == mxLOGICAL_CLASS && a->m * a->n == 1; }
static const char *CN[] = {"unknown", "cell", "struct", "logical", "char", "void", "double", "single", "int8", "uint8", "int16", "uint16", "int32", "uint32", "int64", "uint64", "function_handle"};
const char *mxGetClassName(const mxArray *a) { CK(a); return CN[a->cls]; }
bool mxIsClass(const mxArray *a, const char *n) { CK(a); return !strcmp(CN[a->cls], n) || (!strcmp(n, "numeric") && mxIsNumeric(a)); }
mxClassID mxGetClassID(const mxArray *a) { CK(a); return a->cls; }
size_t mxGetM(const mxArray *a) { CK(a); return a->m; }
size_t mxGetN(const mxArray *a) { CK(a); return a->n; }
size_t mxGetNumberOfElements(const mxArray *a) { CK(a); return a->m * a->n; }
size_t mxGetElementSize(const mxArray *a) { CK(a); return esz(a->cls); }
mwSize mxGetNumberOfDimensions(const mxArray *a) { CK(a); return 2; }
const mwSize *mxGetDimensions(const mxArray *a) { CK(a); mxArray *b = (mxArray *)a; b->dims[0] = a->m; b->dims[1] = a->n; return b->dims; }
double *mxGetPr(const mxArray *a) { CK(a); return a->pr; }
double *mxGetPi(const mxArray *a) { CK(a); return a->pi; }
void *mxGetData(const mxArray *a) { CK(a); return a->pr; }
void *mxGetImagData(const mxArray *a) { CK(a); return a->pi; }
double mxGetScalar(const mxArray *a) {
  CK(a); if (a->m * a->n == 0 || !a->pr || a->cls == mxCELL_CLASS || a->cls == mxSTRUCT_CLASS || a->cls == mxFUNCTION_CLASS) hostbug("mxGetScalar");
  switch (a->cls) { case mxDOUBLE_CLASS: return *(double *)a->pr; case mxSINGLE_CLASS: return *(float *)a->pr; case mxCHAR_CLASS: return *(uint16_t *)a->pr; case mxINT32_CLASS: return *(int32_t *)a->pr; default: return *(uint8_t *)a->pr; }
}
char *mxArrayToString(const mxArray *a) { CK(a); if (a->cls != mxCHAR_CLASS) return NULL; size_t n = a->m * a->n; char *p = mxMalloc(n + 1); if (!p) return NULL; if (nstrs < 256) strs[nstrs++] = p; for (size_t i = 0; i < n; i++) p[i] = (char)((uint16_t *)a->pr)[i]; p[n] = 0; return p; }
int mxGetString(const mxArray *a, char *b, mwSize k) { CK(a); if (a->cls != mxCHAR_CLASS || !k) return 1; size_t n = a->m * a->n, i; for (i = 0; i < n && i + 1 < k; i++) b[i] = (char)((uint16_t *)a->pr)[i]; b[i] = 0; return n + 1 > k; }
mxArray *mxCreateNumericMatrix(mwSize m, mwSize n, mxClassID cls, mxComplexity c) {
  mxArray *a = calloc(1, sizeof *a); a->cls = cls; a->cplx = c; a->m = m; a->n = n; a->live = 1; if (nouts < 64) outs[nouts++] = a; size_t k;
  if (__builtin_mul_overflow(m, n, &k) || k > (1ull << 40)) { a->m = a->n = 0; unwind("Out of memory (host): array too large."); }
  if (k) { a->pr = sim_calloc(k, esz(cls)); if (!a->pr) unwind("Out of memory (host)."); if (c) { a->pi = sim_calloc(k, esz(cls)); if (!a->pi) unwind("Out of memory (host)."); } }
  return a;
}
mxArray *mxCreateDoubleMatrix(mwSize m, mwSize n, mxComplexity c) { return mxCreateNumericMatrix(m, n, mxDOUBLE_CLASS, c); }
mxArray *mxCreateDoubleScalar(double v) { mxArray *a = mxCreateDoubleMatrix(1, 1, mxREAL); *(double *)a->pr = v; return a; }
mxArray *mxCreateLogicalScalar(bool v) { mxArray *a = mxCreateNumericMatrix(1, 1, mxLOGICAL_CLASS, mxREAL); *(uint8_t *)a->pr = v; return a; }
mxArray *mxCreateString(const char *s) { size_t n = strlen(s); mxArray *a = mxCreateNumericMatrix(n ? 1 : 0, n, mxCHAR_CLASS, mxREAL); for (size_t i = 0; i < n; i++) ((uint16_t *)a->pr)[i] = (unsigned char)s[i]; return a; }
mxArray *mxDuplicateArray(const mxArray *s) { CK(s); mxArray *a = mxCreateNumericMatrix(s->m, s->n, s->cls, s->cplx); size_t b = s->m * s->n * esz(s->cls); if (b) { memcpy(a->pr, s->pr, b); if (s->cplx) memcpy(a->pi, s->pi, b); } return a; }
void mxDestroyArray(mxArray *a) { if (!a) return; if (a->in) { rt_violation(VK_BADFREE, "mxDestroyArray of an input array"); return; } if (!a->live) { rt_violation(VK_BADFREE, "mxDestroyArray of an array already destroyed"); return; } a->live = 0; sim_free(a->pr); sim_free(a->pi); a->pr = a->pi = NULL; }
bool mxIsNaN(double v) { return v != v; } bool mxIsInf(double v) { return isinf(v); } bool mxIsFinite(double v) { return isfinite(v); } double mxGetNaN(void) { return NAN; } double mxGetInf(void) { return INFINITY; } double mxGetEps(void) { return 2.220446049250313e-16; }
void mexErrMsgTxt(const char *m) { unwind(m); __builtin_unreachable(); }
void mexErrMsgIdAndTxt(const char *id, const char *f, ...) { char b[200]; va_list ap; va_start(ap, f); vsnprintf(b, sizeof b, f, ap); va_end(ap); unwind(b); __builtin_unreachable(); }
void mexWarnMsgTxt(const char *m) {} void mexWarnMsgIdAndTxt(const char *id, const char *f, ...) {}
int mexPrintf(const char *f, ...) { va_list ap; va_start(ap, f); rt_cb_enter(); rt_message(1, f, ap); va_end(ap); rt_cb_leave(); nprinted++; return 1; }
int mexAtExit(void (*f)(void)) { return 0; } void mexLock(void) {} void mexUnlock(void) {} const char *mexFunctionName(void) { return "mex"; } void mexMakeMemoryPersistent(void *p) { unmanage(p); } void mexMakeArrayPersistent(mxArray *a) {} int mexEvalString(const char *s) { return 0; }

/* ---------------------------------------------------------------- what the script asked for */
typedef union { fnft_nsev_opts_t nsev; fnft_kdvv_opts_t kdvv; fnft_manakovv_opts_t man; fnft_nsep_opts_t nsep; fnft_nsev_inverse_opts_t inv; } Opts;
#define MAXN 64
static struct {
  int on, g; size_t D, M, K; double complex q[MAXN], q2[MAXN], g1[MAXN], g2[MAXN]; double T[2], XI[2], shift; int kappa; Opts o; int ng1, ng2; int cs, bs, nc, quiet, seed;
} ex;
static struct { int calls, ret, was_called; size_t K, M, ncs; double complex *cs, *bs, *nc, *q; double XI[2]; size_t nq; int K0; } got;
static char mism[160];
static void bad_(const char *f, ...) { if (mism[0]) return; va_list ap; va_start(ap, f); vsnprintf(mism, sizeof mism, f, ap); va_end(ap); }
static int same(const void *a, const void *b, size_t n) { return !n || (a && b && rt_usize((void *)a) >= n && !memcmp(a, b, n)); }
static void chk_common(size_t D, const void *q, const double *T, int kappa, int have_kappa) {
  if (!ex.on) return;
  if (D != ex.D) bad_("passed %zu samples, the script gave %zu", D, ex.D); else if (q && !same(q, ex.q, 16 * D)) bad_("passed other samples than the script gave");
  if (!T || memcmp(T, ex.T, 16)) bad_("passed another T than the script gave"); if (have_kappa && kappa != ex.kappa) bad_("passed kappa %d, the script gave %d", kappa, ex.kappa);
}
/* room for one value per degree of the transfer matrix, as fnft_nsev_max_K counts them */
static void chk_room(const char *w, int g, size_t n, size_t D, int disc) { size_t d = g == G_MAN ? (disc < 13 ? op_mdeg[disc] : 1) : disc < 28 ? op_deg[disc] : 1; if (ex.on && n < d * D) bad_("gave the library room for %zu values of the %s spectrum, there may be %zu", n, w, d * D); }
static void *keep(const void *p, size_t n) { void *q = malloc(n + 1); if (p && rt_usize((void *)p) >= n) memcpy(q, p, n); else memset(q, 0, n); return q; }
static void chk_cs(size_t M, const void *cs, const double *XI) { if (!ex.on) return; if (ex.cs && (cs ? M : 0) != ex.M) bad_("asked the library for %zu values of the continuous spectrum, the script for %zu", cs ? M : 0, ex.M); if (ex.cs && (!XI || memcmp(XI, ex.XI, 16))) bad_("passed another XI than the script gave"); }
#define OPTEQ(f) if (o->f != x->f) bad_("passed " #f " = %g, the script asked for %g", (double)o->f, (double)x->f)
static void chk_guess(const void *b, size_t n, const double complex *g, int ng) { if (ex.on && ng >= 0 && (n != (size_t)ng || !same(b, g, 16 * n))) bad_("passed other initial guesses than the script gave"); }
FNFT_INT mexshim_fnft_nsev(const FNFT_UINT D, FNFT_COMPLEX *const q, FNFT_REAL const *const T, const FNFT_UINT M, FNFT_COMPLEX *const cs, FNFT_REAL const *const XI, FNFT_UINT *const Kp, FNFT_COMPLEX *const bs, FNFT_COMPLEX *const nc, const FNFT_INT kappa, fnft_nsev_opts_t *o) {
  got.calls++; const fnft_nsev_opts_t *x = &ex.o.nsev; chk_common(D, q, T, kappa, 1); chk_cs(M, cs, XI);
  if (ex.on && o) { OPTEQ(bound_state_filtering); OPTEQ(bound_state_localization); OPTEQ(niter); OPTEQ(tol); OPTEQ(Dsub); OPTEQ(discspec_type); OPTEQ(contspec_type); OPTEQ(normalization_flag); OPTEQ(discretization); OPTEQ(richardson_extrapolation_flag); if (x->bound_state_filtering == fnft_nsev_bsfilt_MANUAL) for (int i = 0; i < 4; i++) OPTEQ(bounding_box[i]);
    if (ex.bs && !bs) bad_("did not ask for bound states"); if (ex.nc && !nc) bad_("did not ask for norming constants"); if (ex.bs && x->bound_state_localization == fnft_nsev_bsloc_NEWTON) chk_guess(bs, Kp ? *Kp : 0, ex.g1, ex.ng1); }
  if (o && ex.on && ex.ng1 < 0 && bs && o->bound_state_localization != fnft_nsev_bsloc_NEWTON) chk_room("discrete", G_NSEV, Kp ? *Kp : 0, D, o->discretization);
  got.K0 = Kp ? (int)*Kp : 0; got.ret = fnft_nsev(D, q, T, M, cs, XI, Kp, bs, nc, kappa, o); got.was_called = 1;
  if (!got.ret) { got.ncs = M * (o && o->contspec_type == fnft_nsev_cstype_AB ? 2 : o && o->contspec_type == fnft_nsev_cstype_BOTH ? 3 : 1); got.cs = cs ? keep(cs, 16 * got.ncs) : NULL; got.K = bs && Kp ? *Kp : 0; got.bs = keep(bs, 16 * got.K); got.nc = keep(nc, nc ? 16 * got.K : 0); }
  return got.ret;
}
FNFT_INT mexshim_fnft_kdvv(const FNFT_UINT D, FNFT_COMPLEX *const q, FNFT_REAL const *const T, const FNFT_UINT M, FNFT_COMPLEX *const cs, FNFT_REAL const *const XI, FNFT_UINT *const Kp, FNFT_COMPLEX *const bs, FNFT_COMPLEX *const nc, fnft_kdvv_opts_t *o) {
  got.calls++; const fnft_kdvv_opts_t *x = &ex.o.kdvv; chk_common(D, q, T, 0, 0); chk_cs(M, cs, XI);
  if (ex.on && o) { OPTEQ(bound_state_localization); OPTEQ(niter); OPTEQ(discspec_type); OPTEQ(contspec_type); OPTEQ(normalization_flag); OPTEQ(discretization); OPTEQ(richardson_extrapolation_flag); OPTEQ(grid_spacing);
    if (ex.bs && !bs) bad_("did not ask for bound states"); if (ex.nc && !nc) bad_("did not ask for norming constants"); if (ex.bs && x->bound_state_localization == fnft_kdvv_bsloc_NEWTON) chk_guess(bs, Kp ? *Kp : 0, ex.g1, ex.ng1); }
  got.ret = fnft_kdvv(D, q, T, M, cs, XI, Kp, bs, nc, o); got.was_called = 1;
  if (!got.ret) { got.ncs = M * (o && o->contspec_type == fnft_kdvv_cstype_AB ? 2 : o && o->contspec_type == fnft_kdvv_cstype_BOTH ? 3 : 1); got.cs = cs ? keep(cs, 16 * got.ncs) : NULL; got.K = bs && Kp ? *Kp : 0; got.bs = keep(bs, 16 * got.K); got.nc = keep(nc, nc ? 16 * got.K : 0); }
  return got.ret;
}
FNFT_INT mexshim_fnft_manakovv(const FNFT_UINT D, FNFT_COMPLEX const *const q1, FNFT_COMPLEX const *const q2, FNFT_REAL const *const T, const FNFT_UINT M, FNFT_COMPLEX *const cs, FNFT_REAL const *const XI, FNFT_UINT *const Kp, FNFT_COMPLEX *const bs, FNFT_COMPLEX *const nc, const FNFT_INT kappa, fnft_manakovv_opts_t *o) {
  got.calls++; const fnft_manakovv_opts_t *x = &ex.o.man; chk_common(D, q1, T, kappa, 1); chk_cs(M, cs, XI); if (ex.on && D == ex.D && !same(q2, ex.q2, 16 * D)) bad_("passed other samples of q2 than the script gave");
  if (ex.on && o) { OPTEQ(bound_state_filtering); OPTEQ(bound_state_localization); OPTEQ(contspec_type); OPTEQ(normalization_flag); OPTEQ(discretization); OPTEQ(richardson_extrapolation_flag); if (ex.bs && !bs) bad_("did not ask for bound states"); }
  if (o && bs && o->discretization < 11) chk_room("discrete", G_MAN, Kp ? *Kp : 0, D, o->discretization);
  got.ret = fnft_manakovv(D, q1, q2, T, M, cs, XI, Kp, bs, nc, kappa, o); got.was_called = 1;
  if (!got.ret) { got.ncs = M * (o && o->contspec_type == fnft_manakovv_cstype_AB ? 3 : o && o->contspec_type == fnft_manakovv_cstype_BOTH ? 5 : 2); got.cs = cs ? keep(cs, 16 * got.ncs) : NULL; got.K = bs && Kp ? *Kp : 0; got.bs = keep(bs, 16 * got.K); got.nc = keep(nc, nc ? 16 * got.K : 0); }
  return got.ret;
}
FNFT_INT mexshim_fnft_nsep(const FNFT_UINT D, FNFT_COMPLEX const *const q, FNFT_REAL const *const T, FNFT_REAL const shift, FNFT_UINT *const Kp, FNFT_COMPLEX *const ms, FNFT_UINT *const Mp, FNFT_COMPLEX *const as, FNFT_REAL *const sh, const FNFT_INT kappa, fnft_nsep_opts_t *o) {
  got.calls++; const fnft_nsep_opts_t *x = &ex.o.nsep; chk_common(D, q, T, kappa, 1);
  if (ex.on && o) { if (shift != ex.shift) bad_("passed phase shift %g, the script asked for %g", shift, ex.shift); OPTEQ(localization); OPTEQ(filtering); OPTEQ(max_evals); OPTEQ(discretization); OPTEQ(normalization_flag); OPTEQ(points_per_spine); OPTEQ(Dsub); OPTEQ(tol); OPTEQ(floquet_range[0]); OPTEQ(floquet_range[1]); if (x->filtering == fnft_nsep_filt_MANUAL) for (int i = 0; i < 4; i++) OPTEQ(bounding_box[i]);
    if (x->localization == fnft_nsep_loc_NEWTON) { chk_guess(ms, Kp ? *Kp * x->points_per_spine : 0, ex.g1, ex.ng1); chk_guess(as, Mp ? *Mp : 0, ex.g2, ex.ng2); } }
  if (o && ex.on && ex.ng1 < 0 && x->localization != fnft_nsep_loc_NEWTON) { if (ms) chk_room("main", G_NSEP, Kp ? *Kp : 0, D, o->discretization); if (as) chk_room("auxiliary", G_NSEP, Mp ? *Mp : 0, D, o->discretization); }
  got.ret = fnft_nsep(D, q, T, shift, Kp, ms, Mp, as, sh, kappa, o); got.was_called = 1;
  if (!got.ret) { got.K = Kp ? *Kp : 0; got.M = Mp ? *Mp : 0; got.bs = keep(ms, 16 * got.K); got.nc = keep(as, 16 * got.M); }
  return got.ret;
}
FNFT_INT mexshim_fnft_nsev_inverse(const FNFT_UINT M, FNFT_COMPLEX *const cs, FNFT_REAL const *const XI, FNFT_UINT const K, FNFT_COMPLEX const *const bs, FNFT_COMPLEX const *const nc, const FNFT_UINT D, FNFT_COMPLEX *const q, FNFT_REAL const *const T, const FNFT_INT kappa, fnft_nsev_inverse_opts_t *o) {
  got.calls++; const fnft_nsev_inverse_opts_t *x = &ex.o.inv; chk_common(D, ex.seed ? q : NULL, T, kappa, 1);
  if (ex.on && o) { OPTEQ(discretization); OPTEQ(contspec_type); OPTEQ(contspec_inversion_method); OPTEQ(discspec_type); OPTEQ(max_iter); OPTEQ(oversampling_factor); if (M != ex.M || !same(cs, ex.q2, 16 * M)) bad_("passed another continuous spectrum than the script gave"); if (K != ex.K || !same(bs, ex.g1, 16 * K) || !same(nc, ex.g2, 16 * K)) bad_("passed another discrete spectrum than the script gave"); if (M && (!XI || memcmp(XI, ex.XI, 16))) bad_("passed another XI than the script gave"); }
  got.ret = fnft_nsev_inverse(M, cs, XI, K, bs, nc, D, q, T, kappa, o); got.was_called = 1;
  if (!got.ret) { got.nq = D; got.q = keep(q, 16 * D); }
  return got.ret;
}
FNFT_INT mexshim_fnft_nsev_inverse_XI(const FNFT_UINT D, FNFT_REAL const *const T, const FNFT_UINT M, FNFT_REAL *const XI, fnft_nse_discretization_t d) {
  got.calls++; if (ex.on) { if (D != ex.D || M != ex.M || !T || memcmp(T, ex.T, 16)) bad_("passed other arguments than the script gave"); }
  got.ret = fnft_nsev_inverse_XI(D, T, M, XI, d); got.was_called = 1; if (!got.ret && XI) memcpy(got.XI, XI, 16); return got.ret;
}

/* ---------------------------------------------------------------- the script: a gateway call */
static uint64_t zz; static double U(void) { zz = rt_mix(zz, 5); return (double)(zz >> 11) / 9007199254740992.0; }
static int N(int n) { return (int)(U() * n) % n; }
static mxArray *mk(int cls, int cplx, size_t m, size_t n) {
  mxArray *a = calloc(1, sizeof *a); a->cls = cls; a->cplx = cplx; a->in = a->live = 1; a->m = m; a->n = n; size_t b = m * n * esz(cls);
  if (b) { a->pr = rt_ualloc(b, 0); memset(a->pr, 0, b); if (cplx) { a->pi = rt_ualloc(b, 0); memset(a->pi, 0, b); } } ins[nins++] = a; return a;
}
static mxArray *scal(double v) { mxArray *a = mk(mxDOUBLE_CLASS, 0, 1, 1); *(double *)a->pr = v; return a; }
static mxArray *pair(double x, double y) { mxArray *a = mk(mxDOUBLE_CLASS, 0, 1, 2); ((double *)a->pr)[0] = x; ((double *)a->pr)[1] = y; return a; }
static mxArray *str(const char *s) { size_t n = strlen(s); mxArray *a = mk(mxCHAR_CLASS, 0, n ? 1 : 0, n); for (size_t i = 0; i < n; i++) ((uint16_t *)a->pr)[i] = (unsigned char)s[i]; return a; }
static mxArray *cvec(const double complex *v, size_t n) { mxArray *a = mk(mxDOUBLE_CLASS, 1, n ? 1 : 0, n); for (size_t i = 0; i < n; i++) { ((double *)a->pr)[i] = creal(v[i]); ((double *)a->pi)[i] = cimag(v[i]); } return a; }
static mxArray *rvec(const double complex *v, size_t n) { mxArray *a = mk(mxDOUBLE_CLASS, 0, n ? 1 : 0, n); for (size_t i = 0; i < n; i++) ((double *)a->pr)[i] = creal(v[i]); return a; }
/* the same values in another class */
static mxArray *recast(const mxArray *s, int cls) { mxArray *a = mk(cls, s->cplx, s->m, s->n); for (size_t i = 0; i < s->m * s->n; i++) { double x = s->cls == mxDOUBLE_CLASS ? ((double *)s->pr)[i] : 0, y = s->cplx && s->cls == mxDOUBLE_CLASS ? ((double *)s->pi)[i] : 0; switch (cls) { case mxSINGLE_CLASS: ((float *)a->pr)[i] = (float)x; if (s->cplx) ((float *)a->pi)[i] = (float)y; break; case mxINT8_CLASS: case mxLOGICAL_CLASS: ((int8_t *)a->pr)[i] = (int8_t)x; if (s->cplx) ((int8_t *)a->pi)[i] = (int8_t)y; break; case mxCHAR_CLASS: ((uint16_t *)a->pr)[i] = 'a'; break; case mxINT32_CLASS: ((int32_t *)a->pr)[i] = (int32_t)x; if (s->cplx) ((int32_t *)a->pi)[i] = (int32_t)y; break; } } return a; }
static mxArray *colvec(const mxArray *s) { mxArray *a = mk(s->cls, s->cplx, s->n, s->m); size_t b = s->m * s->n * esz(s->cls); if (b) { memcpy(a->pr, s->pr, b); if (s->cplx) memcpy(a->pi, s->pi, b); } return a; }
enum { A_NONE, A_UINT, A_REAL, A_POS, A_GUESS, A_BOX, A_GUESS2, A_SEED, A_GE1 };
enum { E_ENUM, E_UINT, E_REAL, E_M, E_SKIPCS, E_SKIPBS, E_SKIPNC, E_QUIET, E_SHIFT, E_BOX, E_G1, E_G2, E_SEEDQ };
typedef struct { const char *name; int arg, eff; size_t off; long val; } Opt;
#define O1(T, f, v) offsetof(T, f), v
#define DS(n, T, e) {"discr_" n, A_NONE, E_ENUM, O1(T, discretization, e)}
#define TN fnft_nsev_opts_t
#define NSEDISC(T) DS("2split1A", T, fnft_nse_discretization_2SPLIT1A), DS("2split1B", T, fnft_nse_discretization_2SPLIT1B), DS("2split2A", T, fnft_nse_discretization_2SPLIT2A), DS("2split2B", T, fnft_nse_discretization_2SPLIT2B), DS("2split2S", T, fnft_nse_discretization_2SPLIT2S), DS("2split3A", T, fnft_nse_discretization_2SPLIT3A), DS("2split3B", T, fnft_nse_discretization_2SPLIT3B), DS("2split3S", T, fnft_nse_discretization_2SPLIT3S), DS("2split4A", T, fnft_nse_discretization_2SPLIT4A), DS("2split4B", T, fnft_nse_discretization_2SPLIT4B), DS("2split5A", T, fnft_nse_discretization_2SPLIT5A), DS("2split5B", T, fnft_nse_discretization_2SPLIT5B), DS("2split6A", T, fnft_nse_discretization_2SPLIT6A), DS("2split6B", T, fnft_nse_discretization_2SPLIT6B), DS("2split7A", T, fnft_nse_discretization_2SPLIT7A), DS("2split7B", T, fnft_nse_discretization_2SPLIT7B), DS("2split8A", T, fnft_nse_discretization_2SPLIT8A), DS("2split8B", T, fnft_nse_discretization_2SPLIT8B), DS("4split4A", T, fnft_nse_discretization_4SPLIT4A), DS("4split4B", T, fnft_nse_discretization_4SPLIT4B), DS("BO", T, fnft_nse_discretization_BO), DS("CF4_2", T, fnft_nse_discretization_CF4_2), DS("CF4_3", T, fnft_nse_discretization_CF4_3), DS("CF5_3", T, fnft_nse_discretization_CF5_3), DS("CF6_4", T, fnft_nse_discretization_CF6_4), DS("ES4", T, fnft_nse_discretization_ES4), DS("TES4", T, fnft_nse_discretization_TES4), DS("modal", T, fnft_nse_discretization_2SPLIT2_MODAL)
static const Opt ONSEV[] = {{"M", A_UINT, E_M}, {"bsloc_fasteigen", A_NONE, E_ENUM, O1(TN, bound_state_localization, fnft_nsev_bsloc_FAST_EIGENVALUE)}, {"bsloc_newton", A_GUESS, E_G1, O1(TN, bound_state_localization, fnft_nsev_bsloc_NEWTON)}, {"bsloc_niter", A_UINT, E_UINT, O1(TN, niter, 0)}, {"bsloc_tol", A_REAL, E_REAL, O1(TN, tol, 0)}, {"bsloc_subsamp_refine", A_NONE, E_ENUM, O1(TN, bound_state_localization, fnft_nsev_bsloc_SUBSAMPLE_AND_REFINE)}, {"bsloc_Dsub", A_UINT, E_UINT, O1(TN, Dsub, 0)},
  {"bsfilt_none", A_NONE, E_ENUM, O1(TN, bound_state_filtering, fnft_nsev_bsfilt_NONE)}, {"bsfilt_basic", A_NONE, E_ENUM, O1(TN, bound_state_filtering, fnft_nsev_bsfilt_BASIC)}, {"bsfilt_full", A_NONE, E_ENUM, O1(TN, bound_state_filtering, fnft_nsev_bsfilt_FULL)}, {"bsfilt_manual", A_BOX, E_BOX, O1(TN, bound_state_filtering, fnft_nsev_bsfilt_MANUAL)}, {"RE", A_NONE, E_ENUM, O1(TN, richardson_extrapolation_flag, 1)}, {"dstype_residues", A_NONE, E_ENUM, O1(TN, discspec_type, fnft_nsev_dstype_RESIDUES)}, {"cstype_ab", A_NONE, E_ENUM, O1(TN, contspec_type, fnft_nsev_cstype_AB)},
  {"skip_cs", A_NONE, E_SKIPCS}, {"skip_bs", A_NONE, E_SKIPBS}, {"skip_nc", A_NONE, E_SKIPNC}, {"skip_normalization", A_NONE, E_ENUM, O1(TN, normalization_flag, 0)}, {"quiet", A_NONE, E_QUIET}, NSEDISC(TN), {0}};
#define TK fnft_kdvv_opts_t
#define KD(n) DS(#n, TK, fnft_kdv_discretization_##n)
static const Opt OKDVV[] = {{"M", A_UINT, E_M}, {"bsloc_newton", A_GUESS, E_G1, O1(TK, bound_state_localization, fnft_kdvv_bsloc_NEWTON)}, {"bsloc_gridsearch_refine", A_NONE, E_ENUM, O1(TK, bound_state_localization, fnft_kdvv_bsloc_GRIDSEARCH_AND_REFINE)}, {"bsloc_niter", A_UINT, E_UINT, O1(TK, niter, 0)}, {"grid_spacing", A_POS, E_REAL, O1(TK, grid_spacing, 0)}, {"RE", A_NONE, E_ENUM, O1(TK, richardson_extrapolation_flag, 1)}, {"dstype_residues", A_NONE, E_ENUM, O1(TK, discspec_type, fnft_kdvv_dstype_RESIDUES)}, {"cstype_ab", A_NONE, E_ENUM, O1(TK, contspec_type, fnft_kdvv_cstype_AB)}, {"skip_cs", A_NONE, E_SKIPCS}, {"skip_bs", A_NONE, E_SKIPBS}, {"skip_nc", A_NONE, E_SKIPNC}, {"skip_normalization", A_NONE, E_ENUM, O1(TK, normalization_flag, 0)}, {"quiet", A_NONE, E_QUIET},
  DS("modal", TK, fnft_kdv_discretization_2SPLIT2_MODAL), DS("2split1A", TK, fnft_kdv_discretization_2SPLIT1A), DS("2split1B", TK, fnft_kdv_discretization_2SPLIT1B), DS("2split2A", TK, fnft_kdv_discretization_2SPLIT2A), DS("2split2B", TK, fnft_kdv_discretization_2SPLIT2B), DS("2split2S", TK, fnft_kdv_discretization_2SPLIT2S), DS("2split3A", TK, fnft_kdv_discretization_2SPLIT3A), DS("2split3B", TK, fnft_kdv_discretization_2SPLIT3B), DS("2split3S", TK, fnft_kdv_discretization_2SPLIT3S), DS("2split4A", TK, fnft_kdv_discretization_2SPLIT4A), DS("2split4B", TK, fnft_kdv_discretization_2SPLIT4B), DS("2split5A", TK, fnft_kdv_discretization_2SPLIT5A), DS("2split6B", TK, fnft_kdv_discretization_2SPLIT6B), DS("2split7A", TK, fnft_kdv_discretization_2SPLIT7A), DS("2split8B", TK, fnft_kdv_discretization_2SPLIT8B), DS("4split4A", TK, fnft_kdv_discretization_4SPLIT4A), DS("4split4B", TK, fnft_kdv_discretization_4SPLIT4B), KD(BO), KD(CF4_2), KD(CF4_3), KD(CF5_3), KD(CF6_4), KD(ES4), KD(TES4), {0}};
#define TM fnft_manakovv_opts_t
#define MD(n, e) DS(n, TM, fnft_manakov_discretization_##e)
static const Opt OMAN[] = {{"M", A_UINT, E_M}, {"RE", A_NONE, E_ENUM, O1(TM, richardson_extrapolation_flag, 1)}, {"cstype_ab", A_NONE, E_ENUM, O1(TM, contspec_type, fnft_manakovv_cstype_AB)}, {"cstype_both", A_NONE, E_ENUM, O1(TM, contspec_type, fnft_manakovv_cstype_BOTH)}, {"skip_bs", A_NONE, E_SKIPBS}, {"skip_contspec", A_NONE, E_SKIPCS}, {"quiet", A_NONE, E_QUIET}, MD("2split3A", 2SPLIT3A), MD("2split3B", 2SPLIT3B), MD("2split4A", 2SPLIT4A), MD("2split4B", 2SPLIT4B), MD("2split6B", 2SPLIT6B), MD("4split4A", 4SPLIT4A), MD("4split4B", 4SPLIT4B), MD("4split6B", 4SPLIT6B), MD("FTES4_4A", FTES4_4A), MD("FTES4_suzuki", FTES4_suzuki), MD("BO", BO), MD("CF4_2", CF4_2), {0}};
#define TP fnft_nsep_opts_t
static const Opt ONSEP[] = {{"filt_none", A_NONE, E_ENUM, O1(TP, filtering, fnft_nsep_filt_NONE)}, {"filt_manual", A_BOX, E_BOX, O1(TP, filtering, fnft_nsep_filt_MANUAL)}, {"points_per_spine", A_UINT, E_UINT, O1(TP, points_per_spine, 0)}, {"phase_shift", A_REAL, E_SHIFT}, {"loc_mixed", A_NONE, E_ENUM, O1(TP, localization, fnft_nsep_loc_MIXED)}, {"loc_subsample_and_refine", A_NONE, E_ENUM, O1(TP, localization, fnft_nsep_loc_SUBSAMPLE_AND_REFINE)}, {"loc_newton", A_GUESS2, E_G2, O1(TP, localization, fnft_nsep_loc_NEWTON)}, {"loc_gridsearch", A_NONE, E_ENUM, O1(TP, localization, fnft_nsep_loc_GRIDSEARCH)}, {"loc_max_evals", A_UINT, E_UINT, O1(TP, max_evals, 0)}, {"loc_Dsub", A_UINT, E_UINT, O1(TP, Dsub, 0)}, {"skip_normalization", A_NONE, E_ENUM, O1(TP, normalization_flag, 0)}, {"quiet", A_NONE, E_QUIET}, DS("modal", TP, fnft_nse_discretization_2SPLIT2_MODAL), DS("2split2A", TP, fnft_nse_discretization_2SPLIT2A), DS("2split4A", TP, fnft_nse_discretization_2SPLIT4A), DS("2split4B", TP, fnft_nse_discretization_2SPLIT4B), DS("4split4B", TP, fnft_nse_discretization_4SPLIT4B), {0}};
#define TI fnft_nsev_inverse_opts_t
static const Opt OINV[] = {{"cstype_reflection_coefficient", A_NONE, E_ENUM, O1(TI, contspec_type, fnft_nsev_inverse_cstype_REFLECTION_COEFFICIENT)}, {"cstype_B_of_tau", A_NONE, E_ENUM, O1(TI, contspec_type, fnft_nsev_inverse_cstype_B_OF_TAU)}, {"cstype_b_of_xi", A_NONE, E_ENUM, O1(TI, contspec_type, fnft_nsev_inverse_cstype_B_OF_XI)}, {"dstype_residues", A_NONE, E_ENUM, O1(TI, discspec_type, fnft_nsev_inverse_dstype_RESIDUES)}, {"csmethod_use_seed_potential_instead", A_SEED, E_SEEDQ, O1(TI, contspec_inversion_method, fnft_nsev_inverse_csmethod_USE_SEED_POTENTIAL_INSTEAD)}, {"csmethod_tfmatrix_contains_refl_coeff", A_NONE, E_ENUM, O1(TI, contspec_inversion_method, fnft_nsev_inverse_csmethod_TFMATRIX_CONTAINS_REFL_COEFF)}, {"csmethod_tfmatrix_contains_ab_from_iter", A_NONE, E_ENUM, O1(TI, contspec_inversion_method, fnft_nsev_inverse_csmethod_TFMATRIX_CONTAINS_AB_FROM_ITER)}, {"discr_modal", A_NONE, E_ENUM, O1(TI, discretization, fnft_nse_discretization_2SPLIT2_MODAL)}, {"oversampling_factor", A_GE1, E_UINT, O1(TI, oversampling_factor, 0)}, {"quiet", A_NONE, E_QUIET}, {0}};
static const Opt *OPT[NG] = {ONSEV, OKDVV, OMAN, ONSEP, OINV, NULL, NULL};
static const int NREQ[NG] = {4, 3, 5, 3, 7, 3, 0};
typedef struct { mxArray *v[64]; int n; } Args;
static int must_fail; static const char *misname;
static double complex gz(int g) { return g == G_KDVV ? I * (0.3 + 1.2 * U()) : 0.2 * (U() - 0.5) + I * (0.3 + U()); }
static void one_opt(int g, Args *a, const Opt *o, int *loc) {
  a->v[a->n++] = str(o->name); char *rec = (char *)&ex.o; double x;
  switch (o->arg) {
    case A_UINT: x = !strcmp(o->name, "M") ? N(12) + (N(8) ? 1 : 0) : !strcmp(o->name, "points_per_spine") ? 1 + N(3) : N(12); if (N(6) == 0) x += 0.5; a->v[a->n++] = scal(x); if (o->eff == E_M) ex.M = (size_t)x; else *(size_t *)(rec + o->off) = (size_t)x; break;
    case A_GE1: x = 1 + N(4); a->v[a->n++] = scal(x); *(size_t *)(rec + o->off) = (size_t)x; break;
    case A_REAL: x = o->eff == E_SHIFT ? 3 * U() - 1.5 : N(3) ? 1e-3 * U() : 0; a->v[a->n++] = scal(x); if (o->eff == E_SHIFT) ex.shift = x; else *(double *)(rec + o->off) = x; break;
    case A_POS: x = 0.05 + 0.3 * U(); a->v[a->n++] = scal(x); *(double *)(rec + o->off) = x; break;
    case A_BOX: { mxArray *b = mk(mxDOUBLE_CLASS, 0, 1, 4); double *p = b->pr; p[0] = -1 - U(); p[1] = 1 + U(); p[2] = g == G_NSEP ? -2 - U() : 0.01; p[3] = 2 + U(); a->v[a->n++] = b; *(int *)(rec + o->off) = (int)o->val; memcpy(g == G_NSEP ? ex.o.nsep.bounding_box : ex.o.nsev.bounding_box, p, 32); break; }
    case A_GUESS: ex.ng1 = 1 + N(3); for (int i = 0; i < ex.ng1; i++) ex.g1[i] = gz(g); a->v[a->n++] = cvec(ex.g1, ex.ng1); *(int *)(rec + o->off) = (int)o->val; break;
    case A_GUESS2: { int pps = (int)ex.o.nsep.points_per_spine; ex.ng1 = pps * N(3); ex.ng2 = N(3); for (int i = 0; i < ex.ng1; i++) ex.g1[i] = gz(g); for (int i = 0; i < ex.ng2; i++) ex.g2[i] = gz(g); a->v[a->n++] = cvec(ex.g1, ex.ng1); a->v[a->n++] = cvec(ex.g2, ex.ng2); *(int *)(rec + o->off) = (int)o->val; ex.o.nsep.discretization = fnft_nse_discretization_BO; *loc = 1; break; }
    case A_SEED: for (size_t i = 0; i < ex.D; i++) ex.q[i] = 0.3 * (U() - 0.5) + 0.3 * I * (U() - 0.5); a->v[a->n++] = cvec(ex.q, ex.D); *(int *)(rec + o->off) = (int)o->val; ex.seed = 1; break;
    default: if (o->eff == E_ENUM) *(int *)(rec + o->off) = (int)o->val; else if (o->eff == E_SKIPCS) ex.cs = 0; else if (o->eff == E_SKIPBS) ex.bs = ex.nc = 0; else if (o->eff == E_SKIPNC) ex.nc = 0; else if (o->eff == E_QUIET) ex.quiet = 1;
  }
}
static void script(const OpSpec *s, Args *a, int *nlhs) {
  int g = s->p[P_X1] % NG; memset(&ex, 0, sizeof ex); ex.g = g; ex.on = 1; ex.ng1 = ex.ng2 = -1; zz = rt_mix(s->dseed, 1000003ULL * (s->p[P_X2] + 1)); a->n = 0; must_fail = 0; misname = "";
  size_t D = s->p[P_D] > 0 ? s->p[P_D] : 2; if (D > MAXN) D = MAXN; if (g == G_NSEP || g == G_INV) { size_t k = 2; while (k * 2 <= D) k *= 2; D = k; } ex.D = ex.M = D;
  *nlhs = N(5) ? N(NOUT[g] + 1) : NOUT[g]; if (g == G_VER) *nlhs = N(2) ? 0 : 4; if (g == G_MAN && N(3) == 0) *nlhs = 2;
  double L = 3 + 3 * U(); ex.T[0] = -L; ex.T[1] = L * (0.8 + 0.4 * U()); ex.XI[0] = g == G_KDVV ? 0.1 + U() : -1 - U(); ex.XI[1] = g == G_KDVV ? 2 + U() : 1 + U(); ex.kappa = N(4) ? 1 : -1; if (g == G_NSEP) { ex.T[0] = 0; ex.T[1] = 2 * M_PI; }
  double A = 0.5 + 2 * U(); for (size_t i = 0; i < D; i++) { double t = ex.T[0] + (ex.T[1] - ex.T[0]) * i / (D > 1 ? D - 1 : 1); ex.q[i] = A / cosh(t) * (g == G_KDVV ? 1 : cexp(I * 0.3 * t)) + (g == G_NSEP ? 0.1 * U() : 0); ex.q2[i] = 0.5 * A / cosh(t - 0.3) * cexp(I * 0.1 * t); }
  switch (g) {
    case G_NSEV: ex.o.nsev = fnft_nsev_default_opts(); ex.cs = 1; ex.bs = *nlhs > 1; ex.nc = *nlhs > 2; a->v[a->n++] = cvec(ex.q, D); a->v[a->n++] = pair(ex.T[0], ex.T[1]); a->v[a->n++] = pair(ex.XI[0], ex.XI[1]); a->v[a->n++] = scal(ex.kappa); break;
    case G_KDVV: ex.o.kdvv = fnft_kdvv_default_opts(); ex.cs = 1; ex.bs = *nlhs > 1; ex.nc = *nlhs > 2; a->v[a->n++] = rvec(ex.q, D); a->v[a->n++] = pair(ex.T[0], ex.T[1]); a->v[a->n++] = pair(ex.XI[0], ex.XI[1]); break;
    case G_MAN: ex.o.man = fnft_manakovv_default_opts(); ex.cs = 1; ex.bs = *nlhs > 1; a->v[a->n++] = cvec(ex.q, D); a->v[a->n++] = cvec(ex.q2, D); a->v[a->n++] = pair(ex.T[0], ex.T[1]); a->v[a->n++] = pair(ex.XI[0], ex.XI[1]); a->v[a->n++] = scal(ex.kappa); break;
    case G_NSEP: ex.o.nsep = fnft_nsep_default_opts(); a->v[a->n++] = cvec(ex.q, D); a->v[a->n++] = pair(ex.T[0], ex.T[1]); a->v[a->n++] = scal(ex.kappa); break;
    case G_INV: { ex.o.inv = fnft_nsev_inverse_default_opts(); int mode = N(3); ex.M = mode == 1 ? 0 : D + 2 * N(3); if (ex.M > MAXN) ex.M = MAXN; ex.K = mode == 0 ? 0 : 1 + N(2); if (ex.K) ex.kappa = 1;
      double e = (ex.T[1] - ex.T[0]) / (D > 1 ? D - 1 : 1); ex.XI[0] = (-M_PI + 2 * M_PI / (ex.M ? ex.M : 4)) / (2 * e); ex.XI[1] = M_PI / (2 * e); for (size_t i = 0; i < ex.M; i++) { double x = ex.XI[0] + (ex.M > 1 ? i * (ex.XI[1] - ex.XI[0]) / (ex.M - 1) : 0); ex.q2[i] = 0.4 * exp(-x * x) * cexp(I * x); } for (size_t i = 0; i < ex.K; i++) { ex.g1[i] = 0.3 * i + I * (0.5 + 0.5 * i + 0.1 * U()); ex.g2[i] = (i & 1 ? -1 : 1) * cexp(I * U()); }
      a->v[a->n++] = cvec(ex.q2, ex.M); a->v[a->n++] = pair(ex.XI[0], ex.XI[1]); a->v[a->n++] = cvec(ex.g1, ex.K); a->v[a->n++] = cvec(ex.g2, ex.K); a->v[a->n++] = scal(D); a->v[a->n++] = pair(ex.T[0], ex.T[1]); a->v[a->n++] = scal(ex.kappa); break; }
    case G_XI: ex.M = 2 + N(20); a->v[a->n++] = scal(D); a->v[a->n++] = pair(ex.T[0], ex.T[1]); a->v[a->n++] = scal(ex.M); break;
  }
  int loc = 0;
  if (OPT[g]) {
    int no = 0; while (OPT[g][no].name) no++;
    int cnt = N(3) == 0 ? 0 : 1 + N(5); if (g == G_MAN && ex.bs && D > 4) ex.D = D;
    for (int i = 0; i < cnt && a->n < 40; i++) { int k = N(2) ? N(no) : N(no < 19 ? no : 19); const Opt *o = &OPT[g][k]; if (o->arg == A_SEED && (ex.M > 0 || g != G_INV)) continue; if (loc && !strcmp(o->name, "points_per_spine")) continue; if (loc && o->arg == A_GUESS2) continue; one_opt(g, a, o, &loc); if (!strncmp(o->name, "loc_", 4) && o->arg == A_NONE && loc) { /* the guesses stay without effect */ } }
  }
  /* misuse */
  int mis = s->p[P_MIS]; if (!mis) return; ex.on = 0; must_fail = 1; int qi = g == G_INV ? 0 : g == G_XI || g == G_VER ? -1 : 0, ti = g == G_NSEV || g == G_KDVV || g == G_NSEP ? 1 : g == G_MAN ? 2 : g == G_INV ? 5 : g == G_XI ? 1 : -1, xi = g == G_NSEV || g == G_KDVV ? 2 : g == G_MAN ? 3 : g == G_INV ? 1 : -1, ki = g == G_NSEV ? 3 : g == G_MAN ? 4 : g == G_NSEP ? 2 : g == G_INV ? 6 : -1;
  static const int CLS[] = {mxSINGLE_CLASS, mxINT8_CLASS, mxINT32_CLASS, mxCHAR_CLASS, mxLOGICAL_CLASS, mxCELL_CLASS}; int c = CLS[N(6)]; mxArray *dbl = scal(1 + N(3));
#define OPTS_ONLY if (!OPT[g]) { must_fail = 0; break; }
  switch (mis) {
    case 1: misname = "too few inputs"; a->n = NREQ[g] ? N(NREQ[g]) : 0; if (!NREQ[g]) must_fail = 0; break;
    case 2: misname = "q of another class"; if (qi < 0 || ex.M == 0) { must_fail = 0; break; } a->v[qi] = recast(a->v[qi], c == mxCELL_CLASS || c == mxCHAR_CLASS || c == mxLOGICAL_CLASS ? (a->v[qi]->cplx ? mxSINGLE_CLASS : c) : c); break;
    case 3: misname = "q real instead of complex or the reverse"; if (qi < 0 || (g == G_INV && !ex.M)) { must_fail = 0; break; } a->v[qi] = g == G_KDVV ? cvec(ex.q, D) : rvec(ex.q, g == G_INV ? ex.M : D); break;
    case 4: misname = "q a column"; if (qi < 0 || (g == G_INV && ex.M < 2)) { must_fail = 0; break; } a->v[qi] = colvec(a->v[qi]); break;
    case 5: misname = "q empty or of length one"; if (qi < 0) { must_fail = 0; break; } if (g == G_INV) { must_fail = 0; } a->v[qi] = g == G_KDVV ? rvec(ex.q, N(2)) : cvec(ex.q, N(2)); break;
    case 6: misname = "T of wrong size or class"; if (ti < 0) { must_fail = 0; break; } a->v[ti] = N(2) ? scal(1) : N(2) ? recast(a->v[ti], c) : mk(mxDOUBLE_CLASS, 0, 0, 0); break;
    case 7: misname = "T reversed"; if (ti < 0) { must_fail = 0; break; } a->v[ti] = pair(2, N(2) ? 2 : -1); break;
    case 8: misname = "XI wrong"; if (xi < 0) { must_fail = 0; break; } a->v[xi] = N(2) ? pair(1, -1) : N(2) ? scal(3) : recast(a->v[xi], c); break;
    case 9: misname = "kappa wrong"; if (ki < 0) { must_fail = 0; break; } a->v[ki] = N(4) == 0 ? scal(0) : N(3) == 0 ? pair(1, 1) : N(2) ? mk(mxDOUBLE_CLASS, 0, 0, 0) : scal(N(2) ? NAN : 3); break;
    case 10: misname = "unknown option"; OPTS_ONLY { char b[400]; memset(b, 'x', sizeof b); b[N(2) ? 5 : 350] = 0; a->v[a->n++] = str(N(3) ? b : "discr_"); } break;
    case 11: misname = "option that is not a string"; OPTS_ONLY a->v[a->n++] = N(2) ? dbl : mk(N(2) ? mxCELL_CLASS : mxLOGICAL_CLASS, 0, N(2), 1); break;
    case 12: misname = "option without its value"; OPTS_ONLY { int no = 0, k; while (OPT[g][no].name) no++; int i = 0; do k = N(no); while (OPT[g][k].arg == A_NONE && ++i < 400); if (OPT[g][k].arg == A_NONE) { must_fail = 0; break; } a->v[a->n++] = str(OPT[g][k].name); if (OPT[g][k].arg == A_GUESS2 && N(2)) a->v[a->n++] = cvec(ex.q, 2); } break;
    case 13: case 14: misname = "option with a value of the wrong kind"; OPTS_ONLY { int no = 0, k; while (OPT[g][no].name) no++; int i = 0; do k = N(no); while (OPT[g][k].arg == A_NONE && ++i < 400); int ar = OPT[g][k].arg; if (ar == A_NONE) { must_fail = 0; break; } a->v[a->n++] = str(OPT[g][k].name); mxArray *w;
      if (ar == A_UINT || ar == A_REAL || ar == A_POS || ar == A_GE1) { if (mis == 14) { w = N(2) ? pair(1, 2) : recast(dbl, c); } else { w = N(2) ? mk(mxDOUBLE_CLASS, 0, N(2), 0) : scal(-1 - N(3)); if (OPT[g][k].eff == E_SHIFT && w->pr) must_fail = 0; } }
      else if (ar == A_BOX) w = mis == 14 ? recast(mk(mxDOUBLE_CLASS, 0, 1, 4), mxSINGLE_CLASS) : N(2) ? pair(1, 2) : mk(mxDOUBLE_CLASS, 0, 4, 1);
      else { mxArray *good = cvec(ex.q, ar == A_SEED ? D : 2); w = mis == 14 ? recast(good, N(2) ? mxSINGLE_CLASS : mxINT8_CLASS) : N(3) == 0 ? rvec(ex.q, 2) : N(2) ? colvec(good) : ar == A_SEED ? cvec(ex.q, D > 2 ? D - 1 : D + 1) : mk(mxDOUBLE_CLASS, 1, 1, 0); if (w->m * w->n == 0 && ar == A_GUESS2) must_fail = 0; }
      a->v[a->n++] = w; if (ar == A_GUESS2) a->v[a->n++] = cvec(ex.q, 2); } break;
    case 15: misname = "unusual number of outputs"; must_fail = 0; *nlhs = N(6); if (g == G_VER && *nlhs != 0 && *nlhs != 4) must_fail = 1; break;
    case 16: misname = "no points per spine"; must_fail = 0; if (g == G_NSEP) { a->v[a->n++] = str("points_per_spine"); a->v[a->n++] = scal(0); } break;
    case 17: misname = "arrays of different lengths"; if (g == G_MAN) a->v[1] = cvec(ex.q2, D + 1 - 2 * N(2)); else if (g == G_INV && ex.K) a->v[3] = cvec(ex.g2, ex.K + 1 - 2 * N(2)); else must_fail = 0; break;
    case 18: misname = "empty option"; OPTS_ONLY a->v[a->n++] = str(""); break;
    case 19: misname = "numbers out of range"; must_fail = 0; { double v = N(4) == 0 ? NAN : N(3) == 0 ? -1 : N(2) ? 0 : 1; if (g == G_INV) a->v[4] = scal(v); else if (g == G_XI) a->v[N(2) ? 0 : 2] = scal(v); else if (g == G_NSEP) { a->v[a->n++] = str("loc_max_evals"); a->v[a->n++] = scal(N(2) ? 0 : NAN); } else if (OPT[g]) { a->v[a->n++] = str("M"); a->v[a->n++] = scal(N(2) ? 0 : 1); } } break;
    default: misname = "discrete spectrum of another class"; if (g == G_INV && ex.K) { int w = 2 + N(2); a->v[w] = recast(a->v[w], mxSINGLE_CLASS); } else if (g == G_MAN) a->v[1] = recast(a->v[1], mxSINGLE_CLASS); else must_fail = 0;
  }
}
static void put_arr(OpRes *r, const mxArray *a) { op_put(r, &a->m, sizeof a->m); op_put(r, &a->n, sizeof a->n); op_put(r, &a->cplx, 4); size_t b = a->m * a->n * esz(a->cls); if (b && a->pr) op_put(r, a->pr, b); if (b && a->pi) op_put(r, a->pi, b); }
static int is_result(const mxArray *a, const double complex *v, size_t n) { if (a->cls != mxDOUBLE_CLASS || a->m * a->n != n) return 0; if (n && (!a->cplx || a->m != 1)) return 0; for (size_t i = 0; i < n; i++) { double x = creal(v[i]), y = cimag(v[i]); if (memcmp((double *)a->pr + i, &x, 8) || memcmp((double *)a->pi + i, &y, 8)) return 0; } return 1; }
static void malformed(OpRes *r, const char *f, ...) { if (r->mex_err == 2) return; r->mex_err = 2; va_list ap; va_start(ap, f); vsnprintf(r->mex_id, sizeof r->mex_id, f, ap); va_end(ap); }

void mex_op(const OpSpec *s, const RtFault *f, int nf, uint64_t lim, OpRes *r) {
  static void (*const FN[NG])(int, mxArray **, int, const mxArray **) = {mexFunction_mex_fnft_nsev, mexFunction_mex_fnft_kdvv, mexFunction_mex_fnft_manakovv, mexFunction_mex_fnft_nsep, mexFunction_mex_fnft_nsev_inverse, mexFunction_mex_fnft_nsev_inverse_XI, mexFunction_mex_fnft_version};
  int g = s->p[P_X1] % NG; if (!FN[g]) { r->done = 1; r->refused_by_gen = 1; return; }
  static Args a; int nlhs = 0; nins = nouts = nman = nstrs = 0; errored = 0; errtxt[0] = mism[0] = 0; nprinted = 0; memset(&got, 0, sizeof got); host_strict = s->p[P_X3] & 1;
  script(s, &a, &nlhs); int np = nlhs > 1 ? nlhs : 1;
  mxArray **plhs = rt_ualloc(sizeof *plhs * np, 0); memset(plhs, 0, sizeof *plhs * np);
  const mxArray **prhs = rt_ualloc(sizeof *prhs * (a.n + 0), 0); memcpy(prhs, a.v, sizeof *prhs * a.n);
  for (int i = 0; i < nins; i++) { if (ins[i]->pr) rt_uprotect(ins[i]->pr, 1); if (ins[i]->pi) rt_uprotect(ins[i]->pi, 1); } rt_uprotect((void *)prhs, 1);
  rt_set_faults(f, nf); rt_set_step_limit(lim); int jmp;
  if ((jmp = sigsetjmp(*rt_jb(), 1)) == 0) { rt_enter(); rt_scribble(); FN[g](nlhs, plhs, a.n, prhs); r->done = 1; }
  else if (jmp == 2) { r->done = 1; r->mex_err = 1; snprintf(r->mex_id, sizeof r->mex_id, "%s", errtxt); }
  else r->aborted = rt_aborted();
  rt_leave();
  /* the outcome as the script sees it */
  if (r->done && !r->mex_err) {
    for (int i = 0; i < np; i++) { const mxArray *o = plhs[i]; int k, ok = 0; for (k = 0; k < nouts; k++) if (outs[k] == o) ok = outs[k]->live;
      if (!o) { if (i < NOUT[g] && (nlhs > 0 || i > 0) && i < nlhs) malformed(r, "returned without setting output %d", i + 1); continue; }
      if (!ok) { int in = 0; for (k = 0; k < nins; k++) in |= ins[k] == o; malformed(r, in ? "output %d is an input array" : "output %d is not a live array", i + 1); continue; }
      put_arr(r, o); }
    if (r->mex_err != 2) for (int i = 0; i < nman; i++) if (rt_is_live(man[i]) && !is_str(man[i])) { malformed(r, "returned without releasing a temporary buffer"); break; }
    if (r->mex_err != 2 && got.was_called && got.ret) malformed(r, "the library failed with code %d but no error was raised", got.ret);
    if (r->mex_err != 2 && must_fail && s->p[P_MIS] && !((g == G_INV || g == G_XI) && nlhs < 1)) /* those two do nothing if no output is asked for */ malformed(r, "accepted: %s", misname);
    if (r->mex_err != 2 && ex.on) {
      if (mism[0]) malformed(r, "%s", mism); else if (ex.quiet && nprinted) malformed(r, "printed although quiet was asked for");
      else if (g <= G_INV && got.calls != 1 && !(g == G_INV && nlhs < 1)) malformed(r, "the library was called %d times", got.calls);
      else if (g == G_NSEV || g == G_KDVV || g == G_MAN) {
        if (plhs[0] && !is_result(plhs[0], got.cs, ex.cs ? got.ncs : 0)) malformed(r, "output 1 is not what the library returned");
        if (nlhs > 1 && plhs[1] && !is_result(plhs[1], got.bs, ex.bs ? got.K : 0)) malformed(r, "output 2 is not what the library returned");
        if (nlhs > 2 && g != G_MAN && plhs[2] && !is_result(plhs[2], got.nc, ex.nc ? got.K : 0)) malformed(r, "output 3 is not what the library returned");
      } else if (g == G_NSEP) { if (plhs[0] && !is_result(plhs[0], got.bs, got.K)) malformed(r, "output 1 is not what the library returned"); if (nlhs > 1 && plhs[1] && !is_result(plhs[1], got.nc, got.M)) malformed(r, "output 2 is not what the library returned"); }
      else if (g == G_INV) { if (plhs[0] && !is_result(plhs[0], got.q, got.nq)) malformed(r, "output 1 is not what the library returned"); }
      else if (g == G_XI) { if (plhs[0] && (plhs[0]->m != 1 || plhs[0]->n != 2 || memcmp(plhs[0]->pr, got.XI, 16))) malformed(r, "output 1 is not what the library returned"); if (nlhs > 1 && plhs[1] && (plhs[1]->m * plhs[1]->n != ex.M || ((double *)plhs[1]->pr)[0] != got.XI[0] || fabs(((double *)plhs[1]->pr)[ex.M - 1] - got.XI[1]) > 1e-9 * (1 + fabs(got.XI[1])))) malformed(r, "output 2 is not the grid between the returned end points"); }
    }
  } else if (r->done && r->mex_err == 1) {
    op_put(r, errtxt, strlen(errtxt));
    if (ex.on && !nf && got.was_called && !got.ret) malformed(r, "raised an error although the library succeeded: %.30s", errtxt);
    else if (ex.on && g == G_MAN && ex.bs && (ex.o.man.discretization == fnft_manakov_discretization_BO || ex.o.man.discretization == fnft_manakov_discretization_CF4_2)) { /* documented: no bound states with these */ }
    else if (ex.on && !nf && g <= G_INV && !got.was_called) malformed(r, "refused a valid call: %.40s", errtxt);
    else if (ex.on && mism[0]) malformed(r, "%s", mism);
  }
  /* the host releases its arrays and the managed memory of the call; what is left belongs to nobody */
  for (int i = 0; i < nouts; i++) { if (outs[i]->live) { rt_release_lib(outs[i]->pr); rt_release_lib(outs[i]->pi); } free(outs[i]); }
  for (int i = 0; i < nman; i++) if (rt_is_live(man[i])) rt_release_lib(man[i]);
  op_collect(r, 0);
  rt_uprotect((void *)prhs, 0); rt_ufree((void *)prhs); rt_ufree(plhs);
  for (int i = 0; i < nins; i++) { if (ins[i]->pr) { rt_uprotect(ins[i]->pr, 0); rt_ufree(ins[i]->pr); } if (ins[i]->pi) { rt_uprotect(ins[i]->pi, 0); rt_ufree(ins[i]->pi); } free(ins[i]); }
  free(got.cs); free(got.bs); free(got.nc); free(got.q); nins = nouts = nman = 0;
}
