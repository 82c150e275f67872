/* Operations: calls of the library's public entry points (and of the building blocks the test
 * suite exposes) described by a small vector of integers, so that a plan can be written to a file,
 * minimised and replayed exactly. */
#ifndef OPS_H
#define OPS_H
#include "rt.h"
#ifdef __cplusplus
extern "C" {
#endif

enum { OP_NSEV = 0, OP_NSEVINV, OP_NSEP, OP_KDVV, OP_MANAKOVV, OP_INVXI, OP_DEFAULTS, OP_KERNEL, OP_SETPRINTF, OP_GETPRINTF, OP_MEX, OP_NKINDS };

enum { P_D = 0, P_M, P_K, P_KAPPA, P_DISC, P_LOC, P_FILT, P_DST, P_CST, P_NORM, P_RICH, P_NITER, P_DSUB, P_OPTS, P_OUT, P_SIG, P_MIS, P_COR, P_SHARE,
       P_X1, P_X2, P_X3, P_TOL, P_OSF, P_GARB, P_FPE, P_REG, P_ABS, P_GB, P_GK, NP };
/* P_K: capacity of the discrete-spectrum arrays (or number of guesses)
 * P_OPTS: 0 explicit record, 1 NULL, 2 explicit record holding the defaults
 * P_OUT: bit 0 contspec / main spectrum, bit 1 bound states / auxiliary spectrum, bit 2 norming constants
 * P_MIS: 0 or number of the misuse; P_COR: 0 or seed of the data corruption
 * P_FPE: floating-point environment of the caller; P_REG: unusual but legitimate regime of the inputs; P_ABS: 0 or seed of absurd option values
 * P_GB, P_GK: if not zero, the frequency grid consists of the points P_GK ... P_GK+P_M-1 of the grid with P_GB points
 * P_SHARE: inputs live in memory shared between threads, same spec = same objects */

typedef struct { int kind; uint64_t dseed; int p[NP]; } OpSpec;

typedef struct {
  int done, aborted, ret, is_void, refused_by_gen;
  unsigned char *out; size_t nout;          /* results in documented extents, valid if ret == 0 */
  size_t ncs;                               /* bytes of continuous spectrum at the start of out */
  uint64_t K, M;                            /* counts returned */
  int baddef;                               /* a default option differs from its documentation (see what) */
  double XI[2];                             /* frequency interval of a forward transform */
  uint64_t capK, capM, maxK;
  RtCall cs;
  int64_t leak_blocks; char leak[200];
  int changed; char what[100];              /* an input differs after the call */
  double *bs; int nbs; double *nc; int nnc; /* discrete spectrum for the truncation oracle */
  uint64_t *ctx; int nctx; uint64_t *fctx; int nfctx; uint32_t *asz; int nasz;
  uint64_t handle;                          /* get/setprintf: identity of the handler read back */
  int mex_err; char mex_id[80];
} OpRes;

typedef struct OpInputs OpInputs;

extern const char *op_kind_name(int kind);
extern const char *op_fn_name(const OpSpec *s);     /* name of the library function called, "" if none */
int op_nmis(int kind);
const char *op_mis_name(int kind, int mis);
int op_cor_pattern(const OpSpec *s);
int op_fast(const OpSpec *s);
void ops_reset(void);                               /* forget shared inputs, before rt_begin_run's memory is reused */
void op_prepare_shared(const OpSpec *s);            /* controller: builds shared inputs */
void op_run(const OpSpec *s, int idx, const RtFault *f, int nf, uint64_t step_limit, int protect, OpRes *r);
void op_res_free(OpRes *r);
void op_thread_init(int handler);                   /* sets the handler of the calling simulated thread; -1 leaves it alone */
int op_ndisc(int kind);
int op_disc_slow(int kind, int disc);
int kernel_count(void); int kernel_nmis(int k); const char *kernel_name(int k);
extern const int op_deg[28], op_mdeg[13];
int mex_count(void); const char *mex_name(int k);
#ifdef __cplusplus
}
#endif
#endif
