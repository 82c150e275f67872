plant("b01", "C07", [("src/fnft_nsev.c", "    REAL bounding_box[4] = { NAN };\n    COMPLEX * buffer = NULL;", "    static REAL bounding_box[4];\n    COMPLEX * buffer = NULL;")],
r'''
#include <pthread.h>
enum { D = 128 };
static cx q[D]; static double T[2] = {-12, 12}, XI[2] = {-1, 1}; static unsigned want[2]; static volatile int off;
static int call(int box, size_t *K, cx *bs) { fnft_nsev_opts_t o = fnft_nsev_default_opts(); o.bound_state_localization = fnft_nsev_bsloc_FAST_EIGENVALUE; o.bound_state_filtering = fnft_nsev_bsfilt_MANUAL; o.bounding_box[0] = -1; o.bounding_box[1] = 1; o.bounding_box[2] = box ? 1.0 : 0.01; o.bounding_box[3] = 4; *K = 4 * D; return fnft_nsev(D, q, T, 0, NULL, XI, K, bs, NULL, +1, &o); }
static void *run(void *a) { int box = a != NULL; static __thread cx bs[4 * D]; for (int i = 0; i < 60 && !off; i++) { size_t K; if (call(box, &K, bs) || K != want[box]) off = 1; } return NULL; }
int main() { static cx bs[4 * D]; size_t K; sech(q, D, T[0], T[1], 2.2); for (int b = 0; b < 2; b++) { if (call(b, &K, bs)) return 2; want[b] = K; } if (want[0] == want[1]) return 2;
  pthread_t t[4]; for (int i = 0; i < 4; i++) pthread_create(&t[i], 0, run, i & 1 ? (void *)1 : 0); for (int i = 0; i < 4; i++) pthread_join(t[i], 0); if (off) FAIL("a concurrent call returned another number of bound states"); return bad; }
''', "two threads that compute bound states with different filtering at the same time", "a call filters its bound states with the bounding box of another thread's call")

plant("b02", "C03", [("src/private/fnft__misc.c", "    ret_code = fft_wrapper_create_plan(&plan_inv, D, buf0, buf1, 1);\n    CHECK_RETCODE(ret_code, release_mem);\n\n    // Continuing", "    ret_code = fft_wrapper_create_plan(&plan_inv, D, buf0, buf1, 1);\n    if (ret_code != SUCCESS)\n        return E_SUBROUTINE(ret_code);\n\n    // Continuing")],
r'''
int main() { enum { D = 32 }; cx q[D], cs[16]; double T[2] = {-5, 5}, XI[2] = {-1, 1}; sech(q, D, T[0], T[1], 1.3); fnft_errwarn_setprintf(NULL);
  fnft_nsev_opts_t o = fnft_nsev_default_opts(); o.discretization = fnft_nse_discretization_4SPLIT4B;
  for (long k = 1; k < 400; k++) { arm(k); int rc = fnft_nsev(D, q, T, 8, cs, XI, NULL, NULL, NULL, 1, &o); disarm(); if (live) FAIL("request %ld refused: return code %d, %ld blocks kept", k, rc, live); if (nalloc < k) break; } return bad; }
''', "the request for the inverse transform's plan is refused while the samples are interpolated (only higher-order discretizations)", "buffers and the forward plan are not given back", oom=True)

plant("b03", "C02", [("src/fnft_nsev.c", "            if (normconsts_or_residues_sub == NULL || bound_states_sub == NULL) {\n                ret_code = E_NOMEM;\n                goto leave_fun;\n            }\n            for (i=0; i<K_sub; i++)\n                bound_states_sub[i] = bound_states[i];", "            if (normconsts_or_residues_sub == NULL || bound_states_sub == NULL) {\n                // No room for the second approximation\n                free(bound_states_sub);\n                bound_states_sub = NULL;\n                K_sub = 0;\n            }\n            for (i=0; i<K_sub; i++)\n                bound_states_sub[i] = bound_states[i];")],
r'''
int main() { enum { D = 32 }; cx q[D], bs[D * 4], b0[D * 4], nc[D * 4]; double T[2] = {-6, 6}, XI[2] = {-1, 1}; sech(q, D, T[0], T[1], 1.8); fnft_errwarn_setprintf(NULL);
  fnft_nsev_opts_t o = fnft_nsev_default_opts(); o.bound_state_localization = fnft_nsev_bsloc_FAST_EIGENVALUE; o.richardson_extrapolation_flag = 1; size_t K0 = 0;
  for (long k = 0; k < 4000; k++) { size_t K = 4 * D; arm(k ? k : -1); int rc = fnft_nsev(D, q, T, 0, NULL, XI, &K, bs, nc, 1, &o); disarm(); if (!k) { if (rc || !K) return 2; K0 = K; memcpy(b0, bs, 16 * K); continue; } if (nalloc < k) break; if (rc == 0 && (K != K0 || memcmp(b0, bs, 16 * K))) FAIL("request %ld refused, success reported with other bound states", k); } return bad; }
''', "Richardson extrapolation of the discrete spectrum is requested and exactly one of two buffers for the second approximation cannot be allocated", "the call reports success although the bound states were not extrapolated", oom=True)

plant("b04", "C06", [("src/fnft_nsev.c", "            K = deg;\n            if (*K_ptr >= K) {\n                buffer = bound_states;", "            K = deg;\n            if (*K_ptr + 1 >= K) {\n                buffer = bound_states;")],
r'''
int main() { enum { D = 32 }; cx q[D], mem[8 * D]; double T[2] = {-6, 6}, XI[2] = {-1, 1}; sech(q, D, T[0], T[1], 1.8);
  fnft_nsev_opts_t o = fnft_nsev_default_opts(); o.bound_state_localization = fnft_nsev_bsloc_FAST_EIGENVALUE; o.discretization = fnft_nse_discretization_2SPLIT2A;
  for (size_t cap = 1; cap <= 2 * D; cap++) { for (int i = 0; i < 8 * D; i++) mem[i] = 77.5; size_t K = cap; int rc = fnft_nsev(D, q, T, 0, NULL, XI, &K, mem, NULL, 1, &o); for (int i = cap; i < 8 * D; i++) if (mem[i] != 77.5) { FAIL("room for %zu values, entry %d was written", cap, i); break; } if (rc == 0 && K > cap) FAIL("count"); } return bad; }
''', "room for exactly one bound state less than the degree of the polynomial", "one entry beyond the caller's array is written")

plant("b05", "C01", [("src/fnft_nsev_inverse.c", "            norm_consts == NULL || acoeff_cs == NULL) {", "            norm_consts == NULL) {")],
r'''
int main() { enum { D = 64 }; cx q[D], bs[2] = {0.5*I, 1.5*I}, res[2] = {1, 2}; double T[2] = {-10, 10}; fnft_errwarn_setprintf(NULL);
  fnft_nsev_inverse_opts_t o = fnft_nsev_inverse_default_opts(); o.discspec_type = fnft_nsev_inverse_dstype_RESIDUES;
  for (long k = 1; k < 60; k++) { arm(k); int rc = fnft_nsev_inverse(0, NULL, NULL, 2, bs, res, D, q, T, 1, &o); long n = disarm(); if (n < k) break; if (rc == 0) FAIL("refusal %ld: success", k); } return bad; }
''', "residues as discrete spectrum and the request for the buffer of the values of a(lambda) is refused", "the call writes through a null pointer and takes the process down", oom=True)

plant("b06", "C04", [("src/private/fnft__poly_specfact.c", "    const UINT M = fft_wrapper_next_fft_length( (deg+1)*oversampling_factor );", "    // Remember for which length the memory did not suffice\n    static UINT max_length = 0;\n    UINT M = fft_wrapper_next_fft_length( (deg+1)*oversampling_factor );\n    if (max_length != 0 && M >= max_length)\n        M = fft_wrapper_next_fft_length( (deg+1)*2 );"),
  ("src/private/fnft__poly_specfact.c", "        ret_code = E_NOMEM;\n        goto leave_fun;\n    }\n\n    ret_code = fft_wrapper_create_plan(&plan_fwd", "        ret_code = E_NOMEM;\n        max_length = M;\n        goto leave_fun;\n    }\n\n    ret_code = fft_wrapper_create_plan(&plan_fwd")],
r'''
enum { D = 64 }; static double T[2] = {-10, 10}, XI[2];
static int call(cx *q, long k) { cx cs[D]; fnft_nsev_inverse_opts_t o = fnft_nsev_inverse_default_opts(); o.contspec_type = fnft_nsev_inverse_cstype_B_OF_XI; for (int i = 0; i < D; i++) { double x = XI[0] + i * (XI[1] - XI[0]) / (D - 1); cs[i] = 0.4 * exp(-x * x) * cexp(I * x); } arm(k); int rc = fnft_nsev_inverse(D, cs, XI, 0, NULL, NULL, D, q, T, -1, &o); disarm(); return rc; }
int main() { cx q0[D], q[D]; fnft_nsev_inverse_XI(D, T, D, XI, fnft_nsev_inverse_default_opts().discretization); fnft_errwarn_setprintf(NULL);
  if (call(q0, -1)) return 2; for (long k = 1; k < 40; k++) { int rc = call(q, k); if (nalloc < k) break; if (call(q, -1) || memcmp(q, q0, sizeof q)) { FAIL("after refusal %ld (code %d) the same call gives another signal", k, rc); break; } } return bad; }
''', "a request for one of three buffers of the spectral factorization is refused once, and a later call needs a factorization of at least that size", "all later calls use a coarser factorization and return other signals than before the failure", oom=True)

plant("b07", "C05", [("src/fnft_nsev_inverse.c", "    bnd_states = malloc(K * sizeof(COMPLEX));", "    bnd_states = (COMPLEX *)bound_states;"), ("src/fnft_nsev_inverse.c", "        bnd_states[i] = bound_states[i];\n        norm_consts[i]", "        norm_consts[i]"), ("src/fnft_nsev_inverse.c", "        free(bnd_states);\n", "")],
r'''
int main() { enum { D = 64 }; cx q[D], bs[3] = {0.5*I, 1.5*I, 0.25 + 1*I}, b0[3], nc[3] = {1, -1, 1}; memcpy(b0, bs, sizeof bs); double T[2] = {-10, 10};
  int rc = fnft_nsev_inverse(0, NULL, NULL, 3, bs, nc, D, q, T, 1, NULL); if (rc || memcmp(b0, bs, sizeof bs)) FAIL("bound states of the caller were changed (%d)", rc); return bad; }
''', "at least two bound states that are not ordered by descending imaginary part", "the caller's (const) array of bound states is reordered, the array of norming constants is not")

plant("b08", "C08", [("src/fnft_nsev_inverse.c", "    if (opts_ptr == NULL)\n        opts_ptr = &default_opts;", "    if (opts_ptr == NULL) {\n        opts_ptr = &default_opts;\n        if (contspec != NULL && M >= 4*D)\n            opts_ptr->oversampling_factor = 4; // B(z) is already oversampled\n    }")],
r'''
int main() { enum { D = 32, M = 128 }; cx q[D], cs[M]; double T[2] = {-10, 10}, XI[2]; fnft_nsev_inverse_opts_t a = fnft_nsev_inverse_default_opts(); fnft_nsev_inverse_XI(D, T, M, XI, a.discretization);
  for (int i = 0; i < M; i++) { double x = XI[0] + i * (XI[1] - XI[0]) / (M - 1); cs[i] = 0.4 * exp(-x * x); } int rc = fnft_nsev_inverse(M, cs, XI, 0, NULL, NULL, D, q, T, -1, NULL);
  fnft_nsev_inverse_opts_t b = fnft_nsev_inverse_default_opts(); if (rc || a.oversampling_factor != b.oversampling_factor || a.max_iter != b.max_iter || a.discretization != b.discretization) FAIL("the default options changed (%d)", rc); return bad; }
''', "no options are passed and the spectrum has at least four times as many samples as the signal", "the library's default options change for the rest of the process")

plant("b09", "C09", [("src/private/fnft__errwarn.c", "void fnft__warn_aux(const char *func, const INT line, const char *msg)\n{\n    fnft_printf_ptr_t printf_ptr = fnft_errwarn_getprintf();", "void fnft__warn_aux(const char *func, const INT line, const char *msg)\n{\n    static fnft_printf_ptr_t printf_ptr = NULL;\n    if (printf_ptr == NULL || fnft_errwarn_getprintf() == NULL)\n        printf_ptr = fnft_errwarn_getprintf();")],
r'''
static int na, nb; static int ha(const char *f, ...) { na++; return 0; } static int hb(const char *f, ...) { nb++; return 0; }
int main() { enum { D = 32 }; cx q[D], bs[1]; double T[2] = {-8, 8}, XI[2] = {-1, 1}; sech(q, D, T[0], T[1], 2.7);
  for (int r = 0; r < 2; r++) { fnft_errwarn_setprintf(r ? hb : ha); size_t K = 1; fnft_nsev_opts_t o = fnft_nsev_default_opts(); o.bound_state_localization = fnft_nsev_bsloc_FAST_EIGENVALUE; int rc = fnft_nsev(D, q, T, 0, NULL, XI, &K, bs, NULL, 1, &o); if (rc) return 2; if (r == 0 && !na) return 2; }
  if (!nb || na != 1) FAIL("first handler %d warnings, second %d", na, nb); return bad; }
''', "the handler is replaced by another one after a warning has already been delivered", "warnings still go to the previous handler while errors go to the new one")

plant("b10", "C10", [("src/private/fnft__errwarn.c", "    if (printf_ptr != NULL)\n        printf_ptr(\"FNFT Error", "    if (printf_ptr != NULL\n     && printf_ptr(\"FNFT Error"), ("src/private/fnft__errwarn.c", "                   FNFT_VERSION_SUFFIX);\n    return ec;", "                   FNFT_VERSION_SUFFIX) < 0)\n        return FNFT_EC_OTHER; // the message could not be delivered\n    return ec;")],
r'''
static int ok(const char *f, ...) { return 1; } static int no(const char *f, ...) { return -1; }
int main() { enum { D = 32 }; cx q[D]; double T[2] = {8, -8}; sech(q, D, -8, 8, 2.7); cx cs[8]; double XI[2] = {-1, 1};
  fnft_errwarn_setprintf(ok); int a = fnft_nsev(D, q, T, 8, cs, XI, NULL, NULL, NULL, 1, NULL); fnft_errwarn_setprintf(no); int b = fnft_nsev(D, q, T, 8, cs, XI, NULL, NULL, NULL, 1, NULL); if (a != b || !a) FAIL("codes %d and %d", a, b); return bad; }
''', "an error is reported while the message handler fails (returns a negative value)", "the error code that is returned depends on whether the message could be printed")

plant("b11", "C11", [("src/fnft_nsev_inverse.c", "    for (i=0; i<i0; i++) {\n        transfer_matrix[i] = 0.0;", "    for (i=1; i<i0; i++) {\n        transfer_matrix[i] = 0.0;")],
r'''
extern void *__libc_malloc(size_t); static int pat; void *malloc(size_t n) { void *p = __libc_malloc(n); if (p && pat) { double *d = p; for (size_t i = 0; i < n / 8; i++) d[i] = pat * 0.3; } return p; }
int main() { enum { D = 32 }; cx q[2][D]; double T[2] = {-10, 10}, XI[2]; fnft_nsev_inverse_opts_t o = fnft_nsev_inverse_default_opts(); fnft_nsev_inverse_XI(D, T, D, XI, o.discretization);
  for (int r = 0; r < 2; r++) { cx cs[D]; for (int i = 0; i < D; i++) { double x = XI[0] + i * (XI[1] - XI[0]) / (D - 1); cs[i] = 0.4 * exp(-x * x); } pat = r + 1; int rc = fnft_nsev_inverse(D, cs, XI, 0, NULL, NULL, D, q[r], T, -1, &o); pat = 0; if (rc) return 2; }
  if (memcmp(q[0], q[1], sizeof q[0])) FAIL("the signal depends on what the memory contained before"); return bad; }
''', "the reflection coefficient is given on exactly as many points as the signal has samples, and the memory is not zero when it is allocated", "one coefficient of the transfer matrix is never set")

plant("b12", "C12", [("src/fnft_nsep.c", "        if (K + K_filtered > *K_ptr) {\n            if (warn_flags[0] == 0) {", "        if (K + K_filtered > *K_ptr) {\n            if (warn_flags[0] == 0 && K == *K_ptr) {")],
r'''
static int nw; static int h(const char *f, ...) { nw++; return 0; }
int main() { enum { D = 64 }; cx q[D], ms[4 * D], as[4 * D]; double T[2] = {0, 6.283185307179586}; for (int i = 0; i < D; i++) q[i] = (0.8 + 0.2 * cos(6.283185307179586 * i / D)) * cexp(I * 6.283185307179586 * i / D); fnft_errwarn_setprintf(h);
  fnft_nsep_opts_t o = fnft_nsep_default_opts(); o.localization = fnft_nsep_loc_GRIDSEARCH; o.filtering = fnft_nsep_filt_NONE; o.filtering = fnft_nsep_filt_AUTO;
  size_t K = 4 * D, M = 4 * D; if (fnft_nsep(D, q, T, 0, &K, ms, &M, as, NULL, -1, &o) || K < 3) return 2; size_t all = K;
  for (size_t cap = 1; cap < all; cap++) { nw = 0; K = cap; M = 4 * D; int rc = fnft_nsep(D, q, T, 0, &K, ms, &M, as, NULL, -1, &o); if (rc == 0 && K < all && nw == 0) FAIL("room for %zu of %zu points: %zu returned without any warning", cap, all, K); } return bad; }
''', "grid search, and the array for the main spectrum is large enough for the first but not for both halves of the spectrum", "points are dropped without a warning")

plant("b13", "C13", [("src/private/fnft__poly_specfact.c", "#include \"fnft__poly_specfact.h\"", "#include <fenv.h>\n#include \"fnft__poly_specfact.h\""), ("src/private/fnft__poly_specfact.c", "    INT ret_code = SUCCESS;\n    UINT i;\n\n    COMPLEX * const buf_in", "    INT ret_code = SUCCESS;\n    UINT i;\n\n    // The results below rely on rounding to nearest\n    const int round_mode = fegetround();\n    fesetround(FE_TONEAREST);\n\n    COMPLEX * const buf_in"),
  ("src/private/fnft__poly_specfact.c", "    for (i=0; i<=deg; i++)\n        result[i] = CONJ( buf_out[deg-i] );\n", "    for (i=0; i<=deg; i++)\n        result[deg-i] = CONJ( buf_out[i] );\n    fesetround(round_mode);\n")],
r'''
#include <fenv.h>
enum { D = 64 }; static double T[2] = {-10, 10}, XI[2];
static int call(cx *q, long k) { cx cs[D]; fnft_nsev_inverse_opts_t o = fnft_nsev_inverse_default_opts(); o.contspec_type = fnft_nsev_inverse_cstype_B_OF_XI; for (int i = 0; i < D; i++) { double x = XI[0] + i * (XI[1] - XI[0]) / (D - 1); cs[i] = 0.4 * exp(-x * x) * cexp(I * x); } arm(k); int rc = fnft_nsev_inverse(D, cs, XI, 0, NULL, NULL, D, q, T, -1, &o); disarm(); return rc; }
int main() { cx q[D]; fnft_nsev_inverse_XI(D, T, D, XI, fnft_nsev_inverse_default_opts().discretization); fnft_errwarn_setprintf(NULL);
  for (long k = 1; k < 40; k++) { fesetround(FE_UPWARD); int rc = call(q, k); int r = fegetround(); fesetround(FE_TONEAREST); if (r != FE_UPWARD) FAIL("refusal %ld (code %d): rounding mode of the caller lost", k, rc); if (nalloc < k) break; } return bad; }
''', "the caller uses a rounding mode other than the default, and the spectral factorization fails (memory refused)", "the caller's rounding mode is not restored", oom=True)

plant("b14", "C14", [("src/fnft_nsev_inverse.c", "        if (CIMAG(bound_states[i]) <= 0)", "        if (CIMAG(bound_states[i]) < 0)")],
r'''
int main() { enum { D = 64 }; cx q[D], bs[2] = {1.0*I, 0.25}, nc[2] = {1, -1}; double T[2] = {-10, 10}; fnft_errwarn_setprintf(NULL);
  int rc = fnft_nsev_inverse(0, NULL, NULL, 2, bs, nc, D, q, T, 1, NULL); if (rc == 0) FAIL("a real bound state was accepted"); return bad; }
''', "a bound state exactly on the real axis", "it is accepted although bound states have to lie strictly in the upper half-plane")

plant("b15", "C15", [("src/private/fnft__poly_chirpz.c", "    const UINT L = fft_wrapper_next_fft_length(N + M - 1);", "    const UINT L = (M % 2 == 0) ? fft_wrapper_next_fft_length(N + M - 1) : N + M - 1;")],
r'''
#include <time.h>
static double run(size_t D, size_t M) { cx *q = malloc(16 * D), *cs = malloc(16 * M); double T[2] = {-10, 10}, XI[2] = {-1, 1}, best = 1e9; sech(q, D, T[0], T[1], 1.3); for (int r = 0; r < 3; r++) { struct timespec a, b; clock_gettime(CLOCK_PROCESS_CPUTIME_ID, &a); if (fnft_nsev(D, q, T, M, cs, XI, NULL, NULL, NULL, 1, NULL)) exit(2); clock_gettime(CLOCK_PROCESS_CPUTIME_ID, &b); double t = (b.tv_sec - a.tv_sec) + 1e-9 * (b.tv_nsec - a.tv_nsec); if (t < best) best = t; } free(q); free(cs); return best; }
static int prime(size_t n) { for (size_t d = 2; d * d <= n; d++) if (n % d == 0) return 0; return 1; }
int main() { size_t D = 8192, M = 8193; while (!prime(2 * D + M) || !prime(D + M)) { M += 2; if (M > 9500) break; } double worst = 0, even = run(D, 8192); for (size_t m = 8193, n = 0; m < 9000 && n < 3; m += 2) if (prime(D + m)) { n++; double t = run(D, m); if (t > worst) worst = t; }
  for (size_t m = 8193, n = 0; m < 9000 && n < 3; m += 2) if (prime(2 * D + m)) { n++; double t = run(D, m); if (t > worst) worst = t; } printf("%g s, with a prime length %g s\n", even, worst); if (worst > 4 * even + 0.02) FAIL("quadratic work"); return bad; }
''', "an odd number of frequencies such that degree plus frequencies has a large prime factor", "the continuous spectrum takes quadratic instead of quasi-linear work")

plant("b16", "C16", [("matlab/mex_fnft_nsep.c", "            if (k+2 == nrhs || ", "            if (k+2 > nrhs || ")],
r'''
/* minimal MATLAB host */
#include <setjmp.h>
#include "mex.h"
struct mxArray_tag { int n, cplx, chr; double re[64], im[64]; char s[32]; };
static struct mxArray_tag q, T, kap, str, gue, foreign, outs[4]; static int nouts, touched, raised; static jmp_buf jb;
#define T_(a) do { if ((a) == &foreign) touched = 1; } while (0)
void mexErrMsgTxt(const char *m) { raised = 1; longjmp(jb, 1); } int mexPrintf(const char *f, ...) { return 0; }
void *mxMalloc(size_t n) { return malloc(n ? n : 1); } void mxFree(void *p) { free(p); }
bool mxIsComplex(const mxArray *a) { T_(a); return a->cplx; } bool mxIsDouble(const mxArray *a) { T_(a); return !a->chr; } bool mxIsChar(const mxArray *a) { T_(a); return a->chr; } bool mxIsEmpty(const mxArray *a) { T_(a); return a->n == 0; }
size_t mxGetM(const mxArray *a) { T_(a); return 1; } size_t mxGetN(const mxArray *a) { T_(a); return a->n; } size_t mxGetNumberOfElements(const mxArray *a) { T_(a); return a->n; }
double *mxGetPr(const mxArray *a) { T_(a); return (double *)a->re; } double *mxGetPi(const mxArray *a) { T_(a); return (double *)a->im; } double mxGetScalar(const mxArray *a) { T_(a); return a->re[0]; } char *mxArrayToString(const mxArray *a) { T_(a); return strdup(a->s); }
mxArray *mxCreateDoubleMatrix(mwSize m, mwSize n, mxComplexity c) { struct mxArray_tag *a = &outs[nouts++]; a->n = n; return a; }
int main() { q.n = 32; q.cplx = 1; for (int i = 0; i < 32; i++) q.re[i] = 0.5; T.n = 2; T.re[1] = 6; kap.n = 1; kap.re[0] = 1; str.chr = 1; strcpy(str.s, "loc_newton"); gue.n = 2; gue.cplx = 1; gue.re[0] = 0.1; gue.im[0] = 0.3; gue.im[1] = 0.4; foreign.n = 1; foreign.cplx = 1;
  const mxArray *in[6] = {&q, &T, &kap, &str, &gue, &foreign}; mxArray *out[4] = {0}; if (!setjmp(jb)) mexFunction(1, out, 5, in); if (touched || !raised) FAIL("a sixth argument was used although five were passed"); return bad; }
''', "'loc_newton' followed by only one of the two required vectors at the end of the argument list", "the gateway reads beyond the host's argument list instead of raising an error", )

plant("b17", "C17", [("src/fnft_nsep.c", "    roots = malloc(oversampling_factor*deg*sizeof(COMPLEX));", "    roots = malloc(2*deg*sizeof(COMPLEX)); // there are at most deg roots")],
r'''
extern void *__libc_malloc(size_t); extern void __libc_free(void *); enum { PAD = 1 << 20 }; static int armed, hit; struct blk { size_t n, mag; };
void *malloc(size_t n) { if (!armed) return __libc_malloc(n); struct blk *b = __libc_malloc(sizeof *b + n + PAD); b->n = n; b->mag = 0x5eed5eed5eedUL; memset((char *)(b + 1) + n, 0x5a, PAD); return b + 1; }
void free(void *p) { if (!p) return; struct blk *b = (struct blk *)p - 1; if (!armed || b->mag != 0x5eed5eed5eedUL) { __libc_free(p); return; } for (int i = 0; i < PAD; i++) if (((unsigned char *)p)[b->n + i] != 0x5a) { hit = 1; break; } b->mag = 0; __libc_free(b); }
int main() { enum { D = 64 }; static cx q[D], ms[8 * D], as[8 * D]; double T[2] = {0, 6.283185307179586}; fnft_errwarn_setprintf(NULL);
  for (int s = 0; s < 2; s++) { for (int i = 0; i < D; i++) q[i] = 0.8 * cexp(I * 6.283185307179586 * i / D); if (s) q[7] = NAN; fnft_nsep_opts_t o = fnft_nsep_default_opts(); o.localization = fnft_nsep_loc_GRIDSEARCH; size_t K = 4 * D, M = 4 * D; armed = 1; int rc = fnft_nsep(D, q, T, 0, &K, ms, &M, as, NULL, 1, &o); armed = 0; if (hit) FAIL("%s signal: buffer overrun (code %d)", s ? "damaged" : "clean", rc); if (!s && rc) return 2; } return bad; }
''', "a sample is not a number (every point of the search grid then looks like a root) and the grid search is used", "heap memory behind the buffer for the roots is overwritten")

plant("b18", "C16", [("matlab/mex_fnft_nsep.c", "            opts.discretization = fnft_nse_discretization_2SPLIT4B; upsampling_factor = 2;", "            opts.discretization = fnft_nse_discretization_2SPLIT4B;")],
r'''
/* minimal MATLAB host */
#include <setjmp.h>
#include "mex.h"
struct mxArray_tag { int n, cplx, chr; double *re, *im; char s[32]; };
static struct mxArray_tag q, T, kap, str[3], outs[4]; static int nouts, raised, warned; static jmp_buf jb;
void mexErrMsgTxt(const char *m) { raised = 1; longjmp(jb, 1); } int mexPrintf(const char *f, ...) { warned++; return 0; }
void *mxMalloc(size_t n) { return malloc(n ? n : 1); } void mxFree(void *p) { free(p); }
bool mxIsComplex(const mxArray *a) { return a->cplx; } bool mxIsDouble(const mxArray *a) { return !a->chr; } bool mxIsChar(const mxArray *a) { return a->chr; } bool mxIsEmpty(const mxArray *a) { return a->n == 0; }
size_t mxGetM(const mxArray *a) { return 1; } size_t mxGetN(const mxArray *a) { return a->n; } size_t mxGetNumberOfElements(const mxArray *a) { return a->n; }
double *mxGetPr(const mxArray *a) { return a->re; } double *mxGetPi(const mxArray *a) { return a->im; } double mxGetScalar(const mxArray *a) { return a->re[0]; } char *mxArrayToString(const mxArray *a) { return strdup(a->s); }
static void mk(struct mxArray_tag *a, int n, int c) { a->n = n; a->cplx = c; a->re = calloc(n, 8); a->im = calloc(n, 8); }
mxArray *mxCreateDoubleMatrix(mwSize m, mwSize n, mxComplexity c) { struct mxArray_tag *a = &outs[nouts++]; mk(a, n, 1); return a; }
int main() { enum { D = 16 }; mk(&q, D, 1); for (int i = 0; i < D; i++) { q.re[i] = 0.7 * cos(i * 0.39269908); q.im[i] = 0.7 * sin(i * 0.39269908); } mk(&T, 2, 0); T.re[1] = 6.283185307179586; mk(&kap, 1, 0); kap.re[0] = 1; const char *s[3] = {"discr_2split4B", "filt_none", "loc_subsample_and_refine"}; for (int i = 0; i < 3; i++) { str[i].chr = 1; strcpy(str[i].s, s[i]); }
  struct mxArray_tag ds, dv; memset(&ds, 0, sizeof ds); ds.chr = 1; strcpy(ds.s, "loc_Dsub"); mk(&dv, 1, 0); dv.re[0] = D;
  const mxArray *in[8] = {&q, &T, &kap, &str[0], &str[1], &str[2], &ds, &dv}; mxArray *out[4] = {0}; if (!setjmp(jb)) mexFunction(2, out, 8, in); if (raised) return 2;
  cx ms[40 * D], as[40 * D], qq[D]; size_t K = 40 * D, M = 40 * D; for (int i = 0; i < D; i++) qq[i] = q.re[i] + I * q.im[i]; fnft_nsep_opts_t o = fnft_nsep_default_opts(); o.discretization = fnft_nse_discretization_2SPLIT4B; o.filtering = fnft_nsep_filt_NONE; o.localization = fnft_nsep_loc_SUBSAMPLE_AND_REFINE; o.Dsub = D; fnft_errwarn_setprintf(NULL);
  if (fnft_nsep(D, qq, T.re, 0, &K, ms, &M, as, NULL, 1, &o)) return 2; if (out[0]->n != K || out[1]->n != M) FAIL("the library finds %zu and %zu points, the gateway returns %d and %d", K, M, out[0]->n, out[1]->n); return bad; }
''', "the gateway is used with the discretization 2split4B without filtering, so that every root of the polynomial is found", "the gateway's own arrays are too small and a part of the spectrum is dropped")

plant("b19", "C07", [("src/3rd_party/eiscor/z_upr1fact_singlestep.f90", "  real(8) :: MISFIT(3)", "  real(8), save :: MISFIT(3)")],
r'''
#include <pthread.h>
enum { D = 96, NT = 6 };
static cx q[NT][D], want[NT][4 * D]; static size_t wantK[NT]; static int wantrc[NT]; static double T[2] = {-12, 12}, XI[2] = {-1, 1}; static volatile int off;
static int call(int t, size_t *K, cx *bs) { fnft_nsev_opts_t o = fnft_nsev_default_opts(); o.bound_state_localization = fnft_nsev_bsloc_FAST_EIGENVALUE; o.bound_state_filtering = fnft_nsev_bsfilt_NONE; *K = 4 * D; return fnft_nsev(D, q[t], T, 0, NULL, XI, K, bs, NULL, +1, &o); }
static void *run(void *a) { int t = (int)(size_t)a; cx *bs = malloc(16 * 4 * D); for (int i = 0; i < 150 && !off; i++) { size_t K; int rc = call(t, &K, bs); if (rc != wantrc[t] || (rc == 0 && (K != wantK[t] || memcmp(bs, want[t], 16 * K)))) off = 1; } free(bs); return NULL; }
int main() { fnft_errwarn_setprintf(NULL); for (int t = 0; t < NT; t++) { sech(q[t], D, T[0], T[1], 1.3 + 0.4 * t); wantrc[t] = call(t, &wantK[t], want[t]); if (wantrc[t]) return 2; }
  pthread_t h[NT]; for (int t = 0; t < NT; t++) pthread_create(&h[t], 0, run, (void *)(size_t)t); for (int t = 0; t < NT; t++) pthread_join(h[t], 0); if (off) FAIL("a concurrent call returned other bound states than alone"); return bad; }
''', "two threads that localize bound states with the fast eigenvalue method at the same time", "the bulge of one thread's QR iteration is overwritten by the other's")

plant("b20", "C17", [("src/3rd_party/eiscor/z_upr1fact_qr.f90", "  integer :: STR, STP, ZERO, ITMAX, ITCNT\n", "  integer :: STR, STP, ZERO, ITMAX, ITCNT = 0\n"), ("src/3rd_party/eiscor/z_upr1fact_qr.f90", "  ITMAX = 20*N\n  ITCNT = 0\n", "  ITMAX = 20*N\n")],
r'''
#include "fnft__poly_roots_fasteigen.h"
static double u(void) { return 2.0 * rand() / RAND_MAX - 1; }
int main() { fnft_errwarn_setprintf(NULL); srand(1);
  for (int it = 0; it < 20000 && !bad; it++) { int n = 2 + rand() % 14, m = 4 + rand() % 12; cx p[20], g[20], r[20], r0[20], r1[20]; for (int i = 0; i <= n; i++) p[i] = (u() + I * u()) * pow(10, rand() % 600 - 300); for (int i = 0; i <= m; i++) g[i] = u() + I * u();
    int a = fnft__poly_roots_fasteigen(m, g, r0); fnft__poly_roots_fasteigen(n, p, r); int b = fnft__poly_roots_fasteigen(m, g, r1); if (a != b || (a == 0 && memcmp(r0, r1, 16 * m))) FAIL("after roots of a degenerate polynomial, those of another one differ"); } return bad; }
''', "a call whose eigenvalue iteration does not converge (corrupted samples), followed by another call that needs more than a few iterations for an eigenvalue", "the iteration counter of the call that did not converge leaks into the next call and changes its shifts")

plant("b21", "C12", [("src/fnft_nsep.c", "    INT warn_flags[2] = { 0, 0 }; // 0 = no warning", "    static INT warn_flags[2] = { 0, 0 }; // 0 = no warning")],
r'''
#include <stdarg.h>
static int msgs; static int count(const char *f, ...) { char b[2000]; va_list ap; va_start(ap, f); vsnprintf(b, sizeof b, f, ap); va_end(ap); if (strstr(b, "ound more than")) msgs++; return 0; }
int main() { enum { D = 32 }; cx q[D], ms[4], as[4]; double T[2] = {0, 6.283185307179586}; for (int i = 0; i < D; i++) q[i] = 0.8 * cexp(I * 6.283185307179586 * i / D); fnft_errwarn_setprintf((fnft_printf_ptr_t)count);
  for (int r = 0; r < 3; r++) { size_t K = 2, M = 2; msgs = 0; fnft_nsep_opts_t o = fnft_nsep_default_opts(); o.filtering = fnft_nsep_filt_NONE; int rc = fnft_nsep(D, q, T, 0, &K, ms, &M, as, NULL, 1, &o); if (rc) return 2; if (!msgs) FAIL("call %d: shortened without a warning", r + 1); } return bad; }
''', "the second call in a process whose results do not fit", "it is shortened without a warning")

plant("b23", "C02", [("src/fnft_kdvv.c", "                log_scaling_factors = malloc(M * sizeof(COMPLEX));\n                CHECK_NOMEM(log_scaling_factors, ret_code, leave_fun);\n            }\n\n            // Compute a(xi) on the grid", "                log_scaling_factors = malloc(M * sizeof(COMPLEX));\n            }\n\n            // Compute a(xi) on the grid"), ("src/fnft_kdvv.c", "                    REAL scl1 = 1, scl2 = 1;\n                    if (opts->normalization_flag) {", "                    REAL scl1 = 1, scl2 = 1;\n                    if (log_scaling_factors != NULL) {")],
r'''
int main() { enum { D = 64 }; cx q[D], bs[16], b0[16]; double T[2] = {-8, 8}; fnft_errwarn_setprintf(NULL);
  for (int a = 1; a < 30; a++) { for (int i = 0; i < D; i++) { double t = T[0] + i * 16.0 / (D - 1); q[i] = a * 0.9 / cosh(t) / cosh(t); } size_t K0 = 0;
  for (long k = 0; k < 400; k++) { size_t K = 16; fnft_kdvv_opts_t o = fnft_kdvv_default_opts(); o.discretization = fnft_kdv_discretization_BO; o.grid_spacing = 0.3; arm(k ? k : -1); int rc = fnft_kdvv(D, q, T, 0, NULL, NULL, &K, bs, NULL, &o); long n = disarm(); if (!k) { if (rc) break; K0 = K; memcpy(b0, bs, sizeof bs); continue; } if (n < k) break; if (rc == 0 && (K != K0 || memcmp(b0, bs, 16 * K))) FAIL("request %ld refused: success with other bound states", k); } if (bad) break; } return bad; }
''', "exactly the request for the scaling factors of the grid search is refused", "the call succeeds with bound states that differ in accuracy from those it finds with plentiful memory", oom=True)

plant("b24", "C03", [("src/fnft_nsev.c", "                bounding_box[3] = im_bound(D_given, q_tmp, T, eps_t);\n                free(q_tmp);", "                bounding_box[3] = im_bound(D_given, q_tmp, T, eps_t);\n                if (bounding_box[3] == 0) { // no signal, no bound states\n                    *K_ptr = 0;\n                    goto leave_fun;\n                }\n                free(q_tmp);")],
r'''
int main() { enum { D = 32 }; cx q[D], bs[4]; double T[2] = {-5, 5}, XI[2] = {-1, 1}; memset(q, 0, sizeof q); fnft_errwarn_setprintf(NULL);
  fnft_nsev_opts_t o = fnft_nsev_default_opts(); o.discretization = fnft_nse_discretization_TES4; o.bound_state_localization = fnft_nsev_bsloc_NEWTON; o.bound_state_filtering = fnft_nsev_bsfilt_FULL; size_t K = 1; bs[0] = 0.5 * I;
  arm(-1); int rc = fnft_nsev(D, q, T, 0, NULL, XI, &K, bs, NULL, 1, &o); disarm(); if (live) FAIL("return code %d, %ld blocks kept", rc, live); return bad; }
''', "a zero signal with full filtering and a discretization that works with derivatives", "the copy of the samples is not given back", oom=True)

plant("b25", "C18", [("src/fnft_nsev.c", "                        normconsts_or_residues_reserve[K+i] = (scl_num*normconsts_or_residues_reserve[K+i]", "                        if (ds_type_opt == nsev_dstype_BOTH)\n                            normconsts_or_residues_reserve[K+i] = (scl_num*normconsts_or_residues_reserve[K+i]")],
r'''
int main() { enum { D = 256, C = 64 }; cx q[D], bs[C], nc[2 * C], b2[C], n2[C]; double T[2] = {-16, 16}, XI[2] = {-1, 1}; fnft_errwarn_setprintf(NULL);
  for (int a = 1; a < 8; a++) { sech(q, D, T[0], T[1], 0.8 + 0.5 * a); size_t K = C, K2 = C; fnft_nsev_opts_t o = fnft_nsev_default_opts(); o.richardson_extrapolation_flag = 1; o.discspec_type = fnft_nsev_dstype_BOTH; int r1 = fnft_nsev(D, q, T, 0, NULL, XI, &K, bs, nc, 1, &o); o.discspec_type = fnft_nsev_dstype_RESIDUES; int r2 = fnft_nsev(D, q, T, 0, NULL, XI, &K2, b2, n2, 1, &o); if (r1 || r2 || K != K2) return 2; if (memcmp(nc + K, n2, 16 * K)) FAIL("residues depend on whether the norming constants are asked for too"); } return bad; }
''', "Richardson extrapolation, and residues are asked for without norming constants", "the residues are not extrapolated and differ from those returned when norming constants are asked for as well")

plant("b26", "C18", [("src/fnft_manakovv.c", "		Dsub = (UINT)CEIL(D / 2);\n        free(q1sub_preprocessed);\n        q1sub_preprocessed = NULL;\n        free(q2sub_preprocessed);\n        q2sub_preprocessed = NULL;\n		ret_code = manakov_discretization_preprocess_signal(D, q1, q2, eps_t, &Dsub, &q1sub_preprocessed, &q2sub_preprocessed,\n			first_last_index, opts->discretization);\n		CHECK_RETCODE(ret_code, leave_fun);", "		// (unless there is one already.)\n		if (q1sub_preprocessed == NULL || Dsub == D) {\n		Dsub = (UINT)CEIL(D / 2);\n        free(q1sub_preprocessed);\n        q1sub_preprocessed = NULL;\n        free(q2sub_preprocessed);\n        q2sub_preprocessed = NULL;\n		ret_code = manakov_discretization_preprocess_signal(D, q1, q2, eps_t, &Dsub, &q1sub_preprocessed, &q2sub_preprocessed,\n			first_last_index, opts->discretization);\n		CHECK_RETCODE(ret_code, leave_fun);\n		}")],
r'''
#include "fnft_manakovv.h"
int main() { enum { D = 128, M = 8 }; static cx q1[D], q2[D], c1[5 * M], c2[5 * M], bs[20000]; double T[2] = {-10, 10}, XI[2] = {-1, 1}; fnft_errwarn_setprintf(NULL); sech(q1, D, T[0], T[1], 0.8); sech(q2, D, T[0], T[1], 0.5 * I);
  fnft_manakovv_opts_t o = fnft_manakovv_default_opts(); o.richardson_extrapolation_flag = 1; o.discretization = fnft_manakov_discretization_2SPLIT3A; o.Dsub = 32; size_t K = 20000; int r1 = fnft_manakovv(D, q1, q2, T, M, c1, XI, NULL, NULL, NULL, 1, &o); int r2 = fnft_manakovv(D, q1, q2, T, M, c2, XI, &K, bs, NULL, 1, &o); if (r1 || r2) { printf("%d %d\n", r1, r2); return 2; }
  for (int i = 0; i < 2 * M; i++) if (cabs(c1[i] - c2[i]) > 1e-9) { FAIL("the reflection coefficient depends on whether bound states are asked for too"); break; } return bad; }
''', "Richardson extrapolation, and bound states are asked for with a subsampling factor other than two", "the continuous spectrum is extrapolated from a coarser signal than when it is asked for alone")

plant("b27", "C19", [("src/private/fnft__misc.c", "    REAL *freq = NULL;\n    INT ret_code;\n    UINT i;\n    // Allocate memory\n", "    INT ret_code;\n    UINT i;\n    // Allocate memory\n    REAL freq[D];\n"), ("src/private/fnft__misc.c", "    freq = malloc(D * sizeof(REAL));\n    if (buf0 == NULL || buf1 == NULL || freq == NULL) {\n        ret_code = E_NOMEM;\n        goto release_mem;\n    }\n\n    ret_code = fft_wrapper_create_plan(&plan_fwd, D, buf0, buf1, -1);", "    if (buf0 == NULL || buf1 == NULL) {\n        ret_code = E_NOMEM;\n        goto release_mem;\n    }\n\n    ret_code = fft_wrapper_create_plan(&plan_fwd, D, buf0, buf1, -1);"), ("src/private/fnft__misc.c", "    fft_wrapper_free(buf1);\n    free(freq);\n", "    fft_wrapper_free(buf1);\n")],
r'''
#include <pthread.h>
#include <sys/wait.h>
#include <unistd.h>
enum { D = 65536, M = 4 }; static cx q[D], cs[M]; static int rc;
static void *run(void *a) { double T[2] = {-20, 20}, XI[2] = {-1, 1}; fnft_errwarn_setprintf(NULL); fnft_nsev_opts_t o = fnft_nsev_default_opts(); o.discretization = fnft_nse_discretization_4SPLIT4B; rc = fnft_nsev(D, q, T, M, cs, XI, NULL, NULL, NULL, 1, &o); return NULL; }
int main() { sech(q, D, -20, 20, 1.3); if (fork() == 0) { pthread_t t; pthread_attr_t a; pthread_attr_init(&a); pthread_attr_setstacksize(&a, 262144); if (pthread_create(&t, &a, run, NULL)) _exit(2); pthread_join(t, NULL); _exit(rc ? 2 : 0); }
  int st; wait(&st); if (WIFEXITED(st) && WEXITSTATUS(st)) return 2; if (WIFSIGNALED(st)) FAIL("a thread with 256 kB of stack dies (signal %d) for %d samples", WTERMSIG(st), (int)D); return bad; }
''', "a discretization that resamples the signal, many samples and a thread with a small stack (or millions of samples)", "stack overflow")

plant("b28", "C19", [("src/fnft_nsev.c", "        scatter_coeffs = malloc(4 * M * sizeof(COMPLEX));", "        scatter_coeffs = malloc(4 * M * D * sizeof(COMPLEX));")],
r'''
static size_t tot; void *__libc_malloc(size_t); void *malloc(size_t n) { tot += n; return __libc_malloc(n); }
int main() { enum { N = 512 }; static cx q[N], cs[N]; double T[2] = {-10, 10}, XI[2] = {-1, 1}; size_t u[2]; fnft_errwarn_setprintf(NULL);
  for (int k = 0; k < 2; k++) { int D = k ? 512 : 128; sech(q, D, T[0], T[1], 1.3); fnft_nsev_opts_t o = fnft_nsev_default_opts(); o.discretization = fnft_nse_discretization_BO; tot = 0; if (fnft_nsev(D, q, T, D, cs, XI, NULL, NULL, NULL, 1, &o)) return 2; u[k] = tot; }
  if (u[1] > 8 * u[0]) FAIL("128 samples: %zu bytes, 512 samples: %zu bytes", u[0], u[1]); return bad; }
''', "a discretization without a fast algorithm and the continuous spectrum on a long grid", "memory grows with the square of the problem size; a few ten thousand samples need hundreds of gigabytes")

plant("b29", "C11", [("src/private/fnft__misc.c", "    const REAL scl_factor = (REAL)D*eps_t;\n    // Applying phase shift\n    for (i = 0; i <D/2; i++)\n        freq[i] = i/scl_factor;\n    for (i = D/2; i < D; i++)\n        freq[i] = ((REAL)i - (REAL)D)/scl_factor;\n", "    // Applying phase shift (the scaling is the same for signals of the same\n    // length, so it is computed only once)\n    static __thread UINT scl_D = 0;\n    static __thread REAL scl_factor = 0.0;\n    if (D != scl_D) {\n        scl_D = D;\n        scl_factor = (REAL)D*eps_t;\n    }\n    for (i = 0; i <D/2; i++)\n        freq[i] = i/scl_factor;\n    for (i = D/2; i < D; i++)\n        freq[i] = ((REAL)i - (REAL)D)/scl_factor;\n")],
r'''
int main() { enum { D = 64, M = 8 }; static cx q[D], c[3][M]; double TA[2] = {-8, 8}, TB[2] = {-12, 12}, XI[2] = {-1, 1}; fnft_errwarn_setprintf(NULL); sech(q, D, -8, 8, 1.3); fnft_nsev_opts_t o = fnft_nsev_default_opts(); o.discretization = fnft_nse_discretization_4SPLIT4B;
  if (fnft_nsev(D, q, TA, M, c[0], XI, NULL, NULL, NULL, 1, &o)) return 2; if (fnft_nsev(D, q, TB, M, c[1], XI, NULL, NULL, NULL, 1, &o)) return 2; if (fnft_nsev(2 * D / 4, q, TB, M, c[2], XI, NULL, NULL, NULL, 1, &o)) return 2; if (fnft_nsev(D, q, TB, M, c[2], XI, NULL, NULL, NULL, 1, &o)) return 2;
  for (int i = 0; i < M; i++) if (cabs(c[1][i] - c[2][i]) > 1e-9) { FAIL("the same call gives two results"); break; } return bad; }
''', "two calls with a discretization that resamples the signal, the same number of samples and different intervals, one after the other", "the second signal is resampled at the wrong instants")

plant("b30", "C07", [("src/private/fnft__poly_chirpz.c", "    COMPLEX *Y, *V, *buf;\n", "    COMPLEX *Y, *V, *buf;\n    static COMPLEX W_half; // square root of W, used in all powers below\n"), ("src/private/fnft__poly_chirpz.c", "    // Setup yn and compute Yr = fft(yn)\n", "    W_half = CSQRT(W);\n\n    // Setup yn and compute Yr = fft(yn)\n"), ("src/private/fnft__poly_chirpz.c", "        result[n] = CPOW(W, 0.5*n*n) * V[n] / L;", "        result[n] = CPOW(W_half, n*n) * V[n] / L;")],
r'''
#include <pthread.h>
enum { D = 64, M = 64, N = 3000 }; static cx q[D], ref[2][M]; static double XI[2][2] = {{-1, 1}, {-1.7, 1.3}}; static volatile int wrong;
static int one(int k, cx *c) { double T[2] = {-8, 8}; fnft_errwarn_setprintf(NULL); fnft_nsev_opts_t o = fnft_nsev_default_opts(); return fnft_nsev(D, q, T, M, c, XI[k], NULL, NULL, NULL, 1, &o); }
static void *run(void *a) { int k = a != NULL; cx c[M]; for (int i = 0; i < N && !wrong; i++) { if (one(k, c)) wrong = 2; for (int j = 0; j < M; j++) if (!(cabs(c[j] - ref[k][j]) < 1e-6)) wrong = 1; } return NULL; }
int main() { sech(q, D, -8, 8, 1.3); if (one(0, ref[0]) || one(1, ref[1])) return 2; pthread_t t[8]; for (int i = 0; i < 8; i++) pthread_create(t + i, NULL, run, (void *)(long)(i & 1)); for (int i = 0; i < 8; i++) pthread_join(t[i], NULL); if (wrong) FAIL("concurrent calls disturb each other"); return bad; }
''', "two threads that evaluate spectra on different frequency grids at the same time", "one of them is evaluated with the other's grid")

plant("b31", "C20", [("src/private/fnft__misc.c", '        // Check if this value is in the bounding box, proceed to next value\n        // if not. Due to the formulation, NANs are not in the box.\n\n        if (! (CREAL(vals[i]) >= bounding_box[0]) )\n            continue;\n        if (! (CREAL(vals[i]) <= bounding_box[1]) )\n            continue;\n        if (! (CIMAG(vals[i]) >= bounding_box[2]) )\n            continue;\n        if (! (CIMAG(vals[i]) <= bounding_box[3]) )\n            continue;\n\n', '        // Check if this value is in the bounding box, proceed to next value\n        // if not.\n\n        if (CREAL(vals[i]) < bounding_box[0] || CREAL(vals[i]) > bounding_box[1])\n            continue;\n        if (CIMAG(vals[i]) < bounding_box[2] || CIMAG(vals[i]) > bounding_box[3])\n            continue;\n\n')],
r'''
static unsigned long z = 1; static double rnd(void) { z = z * 6364136223846793005UL + 1442695040888963407UL; return (z >> 33) / 2147483648.0; }
int main() { long n = 0; fnft_errwarn_setprintf(NULL); for (int it = 0; it < 1000; it++) { int D = 4 + it % 5; cx q[16], bs[256]; double T[2] = {-1 - rnd(), 1 + rnd()}; double A = 4 * rnd(); int s = it % 3; for (int i = 0; i < D; i++) q[i] = s == 0 ? A : s == 1 ? A * (rnd() - 0.5 + I * (rnd() - 0.5)) : A / cosh(2 * (i - D / 2)); size_t K = 256; fnft_nsev_opts_t o = fnft_nsev_default_opts(); o.bound_state_filtering = fnft_nsev_bsfilt_BASIC; o.discretization = 12 + it % 8 == 16 || 12 + it % 8 == 17 ? 12 : 12 + it % 8; o.niter = 20; o.bound_state_localization = fnft_nsev_bsloc_SUBSAMPLE_AND_REFINE; int r = fnft_nsev(D, q, T, 0, NULL, NULL, &K, bs, NULL, 1, &o); if (r) continue; for (size_t i = 0; i < K; i++) if (!(cabs(bs[i]) < 1e300)) { n++; if (n < 4) FAIL("trial %d: bound state %zu is not a number", it, i); } } return bad; }
''', "a bound state whose Newton refinement ends at not-a-number (high-order discretizations, few samples), with filtering", "the filter, rewritten from 'keep what is inside' to 'drop what is outside', keeps not-a-numbers, and they are returned as bound states")

plant("b32", "C18", [("src/private/fnft__poly_chirpz.c", "    // Allocate memory\n    const UINT N = deg + 1;\n", "    const UINT N = deg + 1;\n\n    // Many points: evaluate them in two batches to keep the FFTs short\n    if (M > 8 * N) {\n        ret_code = poly_chirpz(deg, p, A, W, M/2, result);\n        if (ret_code == SUCCESS)\n            ret_code = poly_chirpz(deg, p, A * CPOW(W, -1.0*(M/2)), W, M/2, result + M/2);\n        return ret_code;\n    }\n\n    // Allocate memory\n")],
r'''
int main() { enum { D = 4 }; cx q[D], c[200]; double T[2] = {-2, 2}; sech(q, D, -2, 2, 1.3); fnft_errwarn_setprintf(NULL); fnft_nsev_opts_t o = fnft_nsev_default_opts();
  for (int M = 90; M < 120; M++) { double XI[2] = {-1, 1.5}; if (fnft_nsev(D, q, T, M, c, XI, NULL, NULL, NULL, 1, &o)) return 2; for (int i = 0; i < M; i++) { double x = -1 + 2.5 * i / (M - 1), X1[2] = {x, x + 1}; cx d[2]; if (fnft_nsev(D, q, T, 2, d, X1, NULL, NULL, NULL, 1, &o)) return 2; if (cabs(c[i] - d[0]) > 1e-6) { FAIL("value at %g depends on the grid (M=%d)", x, M); return bad; } } } return bad; }
''', "an odd number of frequencies, more than eight times the degree of the polynomials", "the last frequency is forgotten and its value is whatever the memory held")
