// Stand-in for the engine's MEX interface (Octave and Matlab): what the interfaces of /repo use of it.
#ifndef SIM_MEX_H
#define SIM_MEX_H
#include <cstddef>
typedef struct mxArray_tag mxArray;
typedef size_t mwSize; typedef size_t mwIndex;
enum mxComplexity { mxREAL = 0, mxCOMPLEX = 1 };
extern "C" {
mxArray* mxCreateDoubleMatrix(mwSize m, mwSize n, mxComplexity c);
mxArray* mxCreateDoubleScalar(double v);
mxArray* mxCreateStructMatrix(mwSize m, mwSize n, int nf, const char** names);
int mxAddField(mxArray* a, const char* name);
void mxSetFieldByNumber(mxArray* a, mwIndex i, int k, mxArray* v);
mxArray* mxGetField(const mxArray* a, mwIndex i, const char* name);
int mxGetNumberOfFields(const mxArray* a);
double* mxGetPr(const mxArray* a);
mwIndex* mxGetIr(const mxArray* a);
mwIndex* mxGetJc(const mxArray* a);
mwSize mxGetNzmax(const mxArray* a);
size_t mxGetM(const mxArray* a);
size_t mxGetN(const mxArray* a);
size_t mxGetNumberOfElements(const mxArray* a);
double mxGetScalar(const mxArray* a);
int mxGetString(const mxArray* a, char* buf, mwSize len);
bool mxIsChar(const mxArray* a);
bool mxIsDouble(const mxArray* a);
bool mxIsComplex(const mxArray* a);
bool mxIsEmpty(const mxArray* a);
bool mxIsSparse(const mxArray* a);
bool mxIsStruct(const mxArray* a);
bool mxIsInf(double v);
bool mxIsNaN(double v);
bool mxIsFinite(double v);
double mxGetInf(void); double mxGetNaN(void);
void mxDestroyArray(mxArray* a);
void mexErrMsgTxt(const char* s);
void mexWarnMsgTxt(const char* s);
int mexPrintf(const char* f, ...);
}
#endif
