/* Stand-in for the host's mex.h. */
#ifndef SIM_MEX_H
#define SIM_MEX_H
#include "matrix.h"
#ifdef __cplusplus
extern "C" {
#endif
void mexErrMsgTxt(const char *m) __attribute__((noreturn));
void mexErrMsgIdAndTxt(const char *id, const char *f, ...) __attribute__((noreturn));
void mexWarnMsgTxt(const char *m); void mexWarnMsgIdAndTxt(const char *id, const char *f, ...);
int mexPrintf(const char *f, ...);
int mexAtExit(void (*f)(void)); void mexLock(void); void mexUnlock(void); const char *mexFunctionName(void); void mexMakeMemoryPersistent(void *p); void mexMakeArrayPersistent(mxArray *a); int mexEvalString(const char *s);
void mexFunction(int nlhs, mxArray *plhs[], int nrhs, const mxArray *prhs[]);
#ifdef __cplusplus
}
#endif
#endif
