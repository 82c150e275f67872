/* Stand-in for the host's matrix.h (separate complex storage, as -DMEX_DOUBLE_HANDLE selects). */
#ifndef SIM_MATRIX_H
#define SIM_MATRIX_H
#include <stddef.h>
#include <stdint.h>
#include <stdbool.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <math.h>
#ifdef __cplusplus
extern "C" {
#endif
typedef struct mxArray_tag mxArray;
typedef size_t mwSize; typedef size_t mwIndex; typedef ptrdiff_t mwSignedIndex; typedef uint16_t mxChar; typedef bool mxLogical; typedef double mxDouble; typedef float mxSingle;
typedef enum { mxREAL, mxCOMPLEX } mxComplexity;
typedef enum { mxUNKNOWN_CLASS = 0, mxCELL_CLASS, mxSTRUCT_CLASS, mxLOGICAL_CLASS, mxCHAR_CLASS, mxVOID_CLASS, mxDOUBLE_CLASS, mxSINGLE_CLASS, mxINT8_CLASS, mxUINT8_CLASS, mxINT16_CLASS, mxUINT16_CLASS, mxINT32_CLASS, mxUINT32_CLASS, mxINT64_CLASS, mxUINT64_CLASS, mxFUNCTION_CLASS } mxClassID;
void *mxMalloc(size_t n); void *mxCalloc(size_t a, size_t b); void *mxRealloc(void *p, size_t n); void mxFree(void *p);
bool mxIsComplex(const mxArray *a); bool mxIsDouble(const mxArray *a); bool mxIsSingle(const mxArray *a); bool mxIsChar(const mxArray *a); bool mxIsEmpty(const mxArray *a); bool mxIsNumeric(const mxArray *a); bool mxIsLogical(const mxArray *a); bool mxIsCell(const mxArray *a); bool mxIsStruct(const mxArray *a); bool mxIsSparse(const mxArray *a); bool mxIsScalar(const mxArray *a); bool mxIsClass(const mxArray *a, const char *n); bool mxIsInt32(const mxArray *a); bool mxIsLogicalScalar(const mxArray *a);
mxClassID mxGetClassID(const mxArray *a); const char *mxGetClassName(const mxArray *a);
size_t mxGetM(const mxArray *a); size_t mxGetN(const mxArray *a); size_t mxGetNumberOfElements(const mxArray *a); size_t mxGetElementSize(const mxArray *a); mwSize mxGetNumberOfDimensions(const mxArray *a); const mwSize *mxGetDimensions(const mxArray *a);
double *mxGetPr(const mxArray *a); double *mxGetPi(const mxArray *a); void *mxGetData(const mxArray *a); void *mxGetImagData(const mxArray *a); double mxGetScalar(const mxArray *a);
char *mxArrayToString(const mxArray *a); int mxGetString(const mxArray *a, char *b, mwSize n);
mxArray *mxCreateDoubleMatrix(mwSize m, mwSize n, mxComplexity c); mxArray *mxCreateDoubleScalar(double v); mxArray *mxCreateString(const char *s); mxArray *mxCreateNumericMatrix(mwSize m, mwSize n, mxClassID cls, mxComplexity c); mxArray *mxCreateLogicalScalar(bool v); mxArray *mxDuplicateArray(const mxArray *a); void mxDestroyArray(mxArray *a);
bool mxIsNaN(double v); bool mxIsInf(double v); bool mxIsFinite(double v); double mxGetNaN(void); double mxGetInf(void); double mxGetEps(void);
#define mxAssert(c, m) ((void)0)
#ifdef __cplusplus
}
#endif
#endif
