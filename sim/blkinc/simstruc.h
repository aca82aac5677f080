// Stand-in for Simulink's S-function interface: what the blocks of /repo use of it, and what they might.
#ifndef SIM_SIMSTRUC_H
#define SIM_SIMSTRUC_H
#include <cstddef>
#include <vector>
#include "mex.h"
typedef double real_T; typedef int int_T; typedef unsigned int uint_T; typedef unsigned char boolean_T; typedef const real_T* const* InputRealPtrsType;
struct DimsInfo_T { int width; };
#define DYNAMICALLY_SIZED (-1)
struct SimStruct {
	int params_expected = 0, ports_in = 0, ports_out = 0, npw = 0, nsample = 0; const char* error = 0;
	std::vector<mxArray*> param; std::vector<int> inw, outw, contiguous, direct; std::vector<const double**> ptrs; std::vector<double*> base, out; void** pw = 0; int nrw = 0, niw = 0;
};
#define ssSetNumContStates(S, n) ((void)(n))
#define ssSetNumDiscStates(S, n) ((void)(n))
inline void ssSetNumSFcnParams(SimStruct* S, int n) { S->params_expected = n; }
inline int ssGetNumSFcnParams(SimStruct* S) { return S->params_expected; }
inline int ssGetSFcnParamsCount(SimStruct* S) { return (int)S->param.size(); }
inline int ssSetNumInputPorts(SimStruct* S, int n) { S->ports_in = n; S->inw.resize((size_t)n, 0); S->contiguous.assign((size_t)n, 0); S->direct.assign((size_t)n, 0); return 1; }
inline int ssSetNumOutputPorts(SimStruct* S, int n) { S->ports_out = n; S->outw.assign((size_t)n, 0); return 1; }
inline int ssGetNumInputPorts(SimStruct* S) { return S->ports_in; }
inline int ssSetInputPortVectorDimension(SimStruct* S, int i, int w) { if (w >= 0) S->inw[(size_t)i] = w; return 1; }
inline int ssSetInputPortWidth(SimStruct* S, int i, int w) { return ssSetInputPortVectorDimension(S, i, w); }
inline int ssSetOutputPortVectorDimension(SimStruct* S, int i, int w) { S->outw[(size_t)i] = w; return 1; }
inline int ssSetOutputPortWidth(SimStruct* S, int i, int w) { return ssSetOutputPortVectorDimension(S, i, w); }
inline void ssSetInputPortDirectFeedThrough(SimStruct* S, int i, int v) { S->direct[(size_t)i] = v; }
inline void ssSetInputPortRequiredContiguous(SimStruct* S, int i, int v) { S->contiguous[(size_t)i] = v; }
inline void ssSetNumSampleTimes(SimStruct* S, int n) { S->nsample = n; }
inline void ssSetNumPWork(SimStruct* S, int n) { S->npw = n; }
inline int ssSetInputPortDimensionInfo(SimStruct*, int, const DimsInfo_T*) { return 1; }
inline int ssSetOutputPortDimensionInfo(SimStruct*, int, const DimsInfo_T*) { return 1; }
inline void ssSetSampleTime(SimStruct*, int, double) {}
inline void ssSetOffsetTime(SimStruct*, int, double) {}
inline const mxArray* ssGetSFcnParam(SimStruct* S, int i) { return S->param[(size_t)i]; }
inline int ssGetInputPortWidth(SimStruct* S, int i) { return S->inw[(size_t)i]; }
inline int ssGetOutputPortWidth(SimStruct* S, int i) { return S->outw[(size_t)i]; }
inline void** ssGetPWork(SimStruct* S) { return S->pw; }
inline void* ssGetPWorkValue(SimStruct* S, int i) { return S->pw[i]; }
inline void ssSetPWorkValue(SimStruct* S, int i, void* p) { S->pw[i] = p; }
inline InputRealPtrsType ssGetInputPortRealSignalPtrs(SimStruct* S, int i) { return S->ptrs[(size_t)i]; }
inline const real_T* ssGetInputPortRealSignal(SimStruct* S, int i) { return S->contiguous[(size_t)i] ? S->base[(size_t)i] : 0; }
inline const void* ssGetInputPortSignal(SimStruct* S, int i) { return ssGetInputPortRealSignal(S, i); }
inline real_T* ssGetOutputPortRealSignal(SimStruct* S, int i) { return S->out[(size_t)i]; }
inline void* ssGetOutputPortSignal(SimStruct* S, int i) { return S->out[(size_t)i]; }
inline void ssSetErrorStatus(SimStruct* S, const char* s) { S->error = s; }
inline const char* ssGetErrorStatus(SimStruct* S) { return S->error; }
#endif
