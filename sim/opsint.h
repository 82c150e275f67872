#ifndef OPSINT_H
#define OPSINT_H
#include "ops.h"
double ops_u(uint64_t *s);
void op_collect(OpRes *r, int64_t allowed);
void op_put(OpRes *r, const void *p, size_t n);
void ops_save_default(void);
void kernel_op(const OpSpec *s, const RtFault *f, int nf, uint64_t lim, int protect, OpRes *r);
void mex_op(const OpSpec *s, const RtFault *f, int nf, uint64_t lim, OpRes *r);
#endif
