// Stand-in for MATLAB's mex.h: the part of the interface the gateways use, on arrays described by the caller.
#pragma once
#include <limits.h>
#include <stddef.h>
#include <stdint.h>
#include <stdlib.h>
#include <string.h>
typedef size_t mwSize;
typedef size_t mwIndex;
typedef bool mxLogical;
typedef uint32_t uint32_T;
typedef int32_t int32_T;
typedef uint8_t uint8_T;
typedef double real_T;
enum mxClassID { mxUNKNOWN_CLASS, mxCELL_CLASS, mxSTRUCT_CLASS, mxLOGICAL_CLASS, mxCHAR_CLASS, mxVOID_CLASS, mxDOUBLE_CLASS, mxSINGLE_CLASS, mxINT8_CLASS, mxUINT8_CLASS, mxINT16_CLASS, mxUINT16_CLASS, mxINT32_CLASS, mxUINT32_CLASS };
enum mxComplexity { mxREAL, mxCOMPLEX };
struct mxArray
{
	int64_t class_id, ndim;
	mwSize dims[4];
	void *data;
	int64_t nb_fields; // structs of one element
	const char **names;
	mxArray **values;
};
struct vf_error
{
	const char *msg;
};
[[noreturn]] inline void mexErrMsgTxt(const char *msg) { throw vf_error{msg}; }
[[noreturn]] inline void mexErrMsgIdAndTxt(const char *, const char *msg, ...) { throw vf_error{msg}; }
inline int mexPrintf(const char *, ...) { return 0; }
inline void mexWarnMsgTxt(const char *) {}
inline mwSize mxGetNumberOfDimensions(const mxArray *a) { return a->ndim; }
inline const mwSize *mxGetDimensions(const mxArray *a) { return a->dims; }
inline size_t mxGetNumberOfElements(const mxArray *a)
{
	size_t n = 1;
	for (int i = 0; i < a->ndim; i++) n *= a->dims[i];
	return n;
}
inline size_t mxGetM(const mxArray *a) { return a->dims[0]; }
inline size_t mxGetN(const mxArray *a)
{
	size_t n = 1;
	for (int i = 1; i < a->ndim; i++) n *= a->dims[i];
	return n;
}
inline bool mxIsEmpty(const mxArray *a) { return mxGetNumberOfElements(a) == 0; }
inline mxClassID mxGetClassID(const mxArray *a) { return (mxClassID)a->class_id; }
inline bool mxIsStruct(const mxArray *a) { return a->class_id == mxSTRUCT_CLASS; }
inline bool mxIsUint32(const mxArray *a) { return a->class_id == mxUINT32_CLASS; }
inline bool mxIsDouble(const mxArray *a) { return a->class_id == mxDOUBLE_CLASS; }
inline bool mxIsSingle(const mxArray *a) { return a->class_id == mxSINGLE_CLASS; }
inline bool mxIsLogical(const mxArray *a) { return a->class_id == mxLOGICAL_CLASS; }
inline bool mxIsComplex(const mxArray *) { return false; }
inline bool mxIsSparse(const mxArray *) { return false; }
inline bool mxIsNumeric(const mxArray *a) { return a->class_id >= mxDOUBLE_CLASS; }
inline void *mxGetData(const mxArray *a) { return a->data; }
inline double *mxGetPr(const mxArray *a) { return (double *)a->data; }
inline double *mxGetDoubles(const mxArray *a) { return a->class_id == mxDOUBLE_CLASS ? (double *)a->data : NULL; }
inline uint32_t *mxGetUint32s(const mxArray *a) { return a->class_id == mxUINT32_CLASS ? (uint32_t *)a->data : NULL; }
inline mxLogical *mxGetLogicals(const mxArray *a) { return (mxLogical *)a->data; }
inline double mxGetScalar(const mxArray *a)
{
	switch (a->class_id)
	{
	case mxLOGICAL_CLASS: return *(mxLogical *)a->data;
	case mxUINT32_CLASS: return *(uint32_t *)a->data;
	case mxSINGLE_CLASS: return *(float *)a->data;
	default: return *(double *)a->data;
	}
}
inline bool mxIsLogicalScalarTrue(const mxArray *a) { return a->class_id == mxLOGICAL_CLASS && mxGetNumberOfElements(a) == 1 && *(mxLogical *)a->data; }
inline int mxGetNumberOfFields(const mxArray *a) { return (int)a->nb_fields; }
inline const char *mxGetFieldNameByNumber(const mxArray *a, int n) { return a->names[n]; }
inline int mxGetFieldNumber(const mxArray *a, const char *name)
{
	for (int i = 0; i < a->nb_fields; i++)
		if (!strcmp(a->names[i], name)) return i;
	return -1;
}
inline mxArray *mxGetFieldByNumber(const mxArray *a, mwIndex, int n) { return n < 0 || n >= a->nb_fields ? NULL : a->values[n]; }
inline mxArray *mxGetField(const mxArray *a, mwIndex i, const char *name) { return mxGetFieldByNumber(a, i, mxGetFieldNumber(a, name)); }
inline size_t vf_size(int64_t c) { return c == mxDOUBLE_CLASS ? 8 : c == mxLOGICAL_CLASS || c == mxUINT8_CLASS || c == mxINT8_CLASS ? 1 : 4; }
inline mxArray *mxCreateNumericArray(mwSize ndim, const mwSize *dims, mxClassID c, mxComplexity)
{
	mxArray *a = (mxArray *)calloc(1, sizeof(mxArray));
	a->class_id = c;
	a->ndim = ndim;
	size_t n = vf_size(c);
	for (size_t i = 0; i < ndim; i++) n *= a->dims[i] = dims[i];
	unsigned char *p = (unsigned char *)malloc(n + 128); // with guards of 64 bytes around the values
	memset(p, 0xa5, n + 128);
	memset(p + 64, 0, n);
	a->data = p + 64;
	return a;
}
inline mxArray *mxCreateUninitNumericArray(mwSize ndim, mwSize *dims, mxClassID c, mxComplexity k)
{
	mxArray *a = mxCreateNumericArray(ndim, dims, c, k);
	size_t n = vf_size(c) * mxGetNumberOfElements(a);
	memset(a->data, 0x5b, n);
	return a;
}
inline mxArray *mxCreateDoubleMatrix(mwSize m, mwSize n, mxComplexity k)
{
	mwSize d[2] = {m, n};
	return mxCreateNumericArray(2, d, mxDOUBLE_CLASS, k);
}
inline mxArray *mxCreateDoubleScalar(double v)
{
	mxArray *a = mxCreateDoubleMatrix(1, 1, mxREAL);
	*(double *)a->data = v;
	return a;
}
inline void mxDestroyArray(mxArray *a)
{
	if (a) free((unsigned char *)a->data - 64), free(a);
}
inline void *mxMalloc(size_t n) { return malloc(n); }
inline void *mxCalloc(size_t n, size_t m) { return calloc(n, m); }
inline void mxFree(void *p) { free(p); }
void mexFunction(int nlhs, mxArray *plhs[], int nrhs, const mxArray *prhs[]);
// 0: returned, 1: error reported to MATLAB, 2: the renderer refused with a message that escapes from the gateway
extern "C" __attribute__((visibility("default"))) inline int vf_call(int nlhs, mxArray **plhs, int nrhs, const mxArray **prhs, char *msg, int size)
{
	try
	{
		mexFunction(nlhs, plhs, nrhs, prhs);
		return 0;
	}
	catch (const vf_error &e)
	{
		strncpy(msg, e.msg, size - 1);
		return 1;
	}
	catch (const char *e)
	{
		strncpy(msg, e, size - 1);
		return 2;
	}
}
extern "C" __attribute__((visibility("default"))) inline int vf_free(mxArray *a)
{
	unsigned char *p = (unsigned char *)a->data - 64;
	size_t n = vf_size(a->class_id) * mxGetNumberOfElements(a);
	int bad = 0;
	for (int i = 0; i < 64; i++) bad += p[i] != 0xa5 || p[64 + n + i] != 0xa5;
	mxDestroyArray(a);
	return bad;
}
// emitted in the library
static void *vf_keep[] __attribute__((used)) = {(void *)vf_call, (void *)vf_free};
