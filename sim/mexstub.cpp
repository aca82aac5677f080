#include "mexstub.hpp"
#include "seams.hpp"
#include <cmath>
#include <cstdarg>
#include <cstring>
#include <limits>
using namespace sim;
namespace sim { int64_t mex_arrays = 0; static std::vector<mxArray*> created; static bool in_call = false; static int warned = 0; }
#ifdef SIM_ASAN
static const size_t GUARD = 0;
#else
static const size_t GUARD = 1024;
#endif
static const double GUARDV = std::numeric_limits<double>::quiet_NaN();
void mxArray_tag::alloc(size_t b) { bytes = b; size_t g = GUARD; if (!b && !g) g = 8; mem = (char*)malloc(b + g); memset(mem, 0, b); for (size_t i = 0; i < GUARD / 8; ++i) memcpy(mem + b + 8 * i, &GUARDV, 8); }
mxArray_tag::~mxArray_tag() { --mex_arrays; for (auto& x : f) delete x.second; if (mem) { for (size_t i = 0; i < bytes; ++i) mem[i] = (char)0xA5; free(mem); } delete[] ir; delete[] jc; }
void mxArray_tag::lend() { lent = true; orig.assign(mem, mem + bytes); if (ir) oir.assign(ir, ir + nzmax); if (jc) ojc.assign(jc, jc + n + 1); for (auto& x : f) x.second->lend(); }
int mxArray_tag::state() const {
	for (size_t i = 0; i < GUARD / 8; ++i) if (mem && memcmp(mem + bytes + 8 * i, &GUARDV, 8)) return 2;
	if (lent) { if (bytes && memcmp(mem, orig.data(), bytes)) return 1; if (ir && nzmax && memcmp(ir, oir.data(), nzmax * sizeof(size_t))) return 1; if (jc && memcmp(jc, ojc.data(), (n + 1) * sizeof(size_t))) return 1; }
	for (auto& x : f) { int s = x.second->state(); if (s) return s; }
	return 0;
}
namespace sim {
static size_t esize(int c) { return c == MX_INT32 || c == MX_SINGLE ? 4 : c == MX_LOGICAL ? 1 : c == MX_CHAR ? 1 : 8; }
static mxArray* fresh(int cls, size_t m, size_t n) { mxArray* a = new mxArray(); ++mex_arrays; a->cls = cls; a->m = m; a->n = n; return a; }
mxArray* mx_new(int cls, size_t m, size_t n, const std::vector<double>& v) {
	mxArray* a = fresh(cls, m, n); a->alloc(m * n * esize(cls));
	for (size_t i = 0; i < m * n && i < v.size(); ++i) { if (cls == MX_DOUBLE) a->d()[i] = v[i]; else if (cls == MX_INT32) ((int*)a->mem)[i] = std::isfinite(v[i]) && std::fabs(v[i]) < 1e9 ? (int)v[i] : 0; else if (cls == MX_SINGLE) ((float*)a->mem)[i] = (float)v[i]; else if (cls == MX_LOGICAL || cls == MX_CHAR) a->mem[i] = v[i] != 0; }
	return a;
}
mxArray* mx_sparse(size_t m, size_t n, const std::vector<double>& v, bool ez, size_t extra) {
	mxArray* a = fresh(MX_DOUBLE, m, n); a->sparse = true; std::vector<size_t> ir; std::vector<double> d; a->jc = new size_t[n + 1]; a->jc[0] = 0;
	for (size_t j = 0; j < n; ++j) { for (size_t i = 0; i < m; ++i) { double x = v[j * m + i]; if (x != 0.0 || (ez && (i * 7 + j * 3) % 4 == 0)) { ir.push_back(i); d.push_back(x); } } a->jc[j + 1] = ir.size(); }
	a->nz = ir.size(); a->nzmax = a->nz + extra; a->ir = new size_t[a->nzmax + 1]; for (size_t i = 0; i < a->nz; ++i) a->ir[i] = ir[i]; for (size_t i = a->nz; i < a->nzmax; ++i) a->ir[i] = 0;
	a->alloc(a->nzmax * 8); for (size_t i = 0; i < a->nz; ++i) a->d()[i] = d[i];
	return a;
}
mxArray* mx_string(const std::string& s) { mxArray* a = fresh(MX_CHAR, s.empty() ? 0 : 1, s.size()); a->alloc(s.size()); memcpy(a->mem, s.data(), s.size()); return a; }
mxArray* mx_struct() { return fresh(MX_STRUCT, 1, 1); }
void mx_field(mxArray* s, const std::string& k, mxArray* v) { s->f.push_back(std::make_pair(k, v)); }
void mex_free(MexCall& c) { for (auto* a : c.out) if (a) { if (a->state() && !c.bad) c.bad = 21; delete a; } c.out.clear(); }
void mex_call(mex_fn f, int nlhs, const std::vector<mxArray*>& in, MexCall& c) {
	std::vector<mxArray*> lhs((size_t)(nlhs < 1 ? 1 : nlhs), (mxArray*)0); std::vector<const mxArray*> rhs(in.begin(), in.end()); const mxArray* none = 0; int n = (int)rhs.size(); rhs.push_back(none);
	created.clear(); warned = 0; in_call = true;
	struct End { MexCall& c; std::vector<mxArray*>& lhs; bool ok = false; ~End() {       // the engine releases every array that is not returned
		in_call = false; c.warnings = warned;
		for (auto* a : created) { bool out = false; if (ok) for (auto* l : lhs) if (l == a) out = true; if (out) continue; if (a->state() && !c.bad) c.bad = 21; delete a; }
		created.clear(); if (ok) c.out = lhs; } } e{c, lhs};
	try { Sut g; f(nlhs, &lhs[0], n, &rhs[0]); e.ok = true; }
	catch (MexError& x) { c.failed = true; c.err = x.msg; }
}
}
static void own(mxArray* a) { if (in_call) created.push_back(a); }
static void disown(mxArray* a) { for (size_t i = 0; i < created.size(); ++i) if (created[i] == a) { created.erase(created.begin() + (long)i); return; } }
extern "C" {
mxArray* mxCreateDoubleMatrix(mwSize m, mwSize n, mxComplexity) { Out g; mxArray* a = mx_new(MX_DOUBLE, m, n, std::vector<double>()); own(a); return a; }
mxArray* mxCreateDoubleScalar(double v) { Out g; mxArray* a = mx_new(MX_DOUBLE, 1, 1, std::vector<double>(1, v)); own(a); return a; }
mxArray* mxCreateStructMatrix(mwSize m, mwSize n, int nf, const char** names) { Out g; mxArray* a = mx_struct(); a->m = m; a->n = n; for (int i = 0; i < nf; ++i) a->f.push_back(std::make_pair(std::string(names[i]), (mxArray*)0)); own(a); return a; }
int mxAddField(mxArray* a, const char* name) { Out g; if (a->cls != MX_STRUCT) return -1; a->f.push_back(std::make_pair(std::string(name), mx_new(MX_DOUBLE, 0, 0, std::vector<double>()))); return (int)a->f.size() - 1; }
void mxSetFieldByNumber(mxArray* a, mwIndex, int k, mxArray* v) { Out g; if (k < 0 || k >= (int)a->f.size()) return; delete a->f[(size_t)k].second; a->f[(size_t)k].second = v; disown(v); }
mxArray* mxGetField(const mxArray* a, mwIndex, const char* name) { Out g; if (a->cls != MX_STRUCT) return 0; for (auto& x : a->f) if (x.first == name) return x.second; return 0; }
int mxGetNumberOfFields(const mxArray* a) { return a->cls == MX_STRUCT ? (int)a->f.size() : 0; }
double* mxGetPr(const mxArray* a) { return (double*)a->mem; }
mwIndex* mxGetIr(const mxArray* a) { return a->ir; }
mwIndex* mxGetJc(const mxArray* a) { return a->jc; }
mwSize mxGetNzmax(const mxArray* a) { return a->sparse ? a->nzmax : 0; }
size_t mxGetM(const mxArray* a) { return a->m; }
size_t mxGetN(const mxArray* a) { return a->n; }
size_t mxGetNumberOfElements(const mxArray* a) { return a->m * a->n; }
double mxGetScalar(const mxArray* a) { if (a->m * a->n == 0 || a->cls == MX_STRUCT) return 0; return a->cls == MX_DOUBLE ? a->d()[0] : a->cls == MX_INT32 ? ((int*)a->mem)[0] : a->cls == MX_SINGLE ? ((float*)a->mem)[0] : a->mem[0]; }
int mxGetString(const mxArray* a, char* buf, mwSize len) { if (a->cls != MX_CHAR || !len) return 1; size_t n = a->m * a->n, k = n < len - 1 ? n : len - 1; memcpy(buf, a->mem, k); buf[k] = 0; return n < len ? 0 : 1; }
bool mxIsChar(const mxArray* a) { return a->cls == MX_CHAR; }
bool mxIsDouble(const mxArray* a) { return a->cls == MX_DOUBLE; }
bool mxIsComplex(const mxArray*) { return false; }
bool mxIsEmpty(const mxArray* a) { return a->m * a->n == 0; }
bool mxIsSparse(const mxArray* a) { return a->sparse; }
bool mxIsStruct(const mxArray* a) { return a->cls == MX_STRUCT; }
bool mxIsInf(double v) { return std::isinf(v); }
bool mxIsNaN(double v) { return std::isnan(v); }
bool mxIsFinite(double v) { return std::isfinite(v); }
double mxGetInf(void) { return INFINITY; }
double mxGetNaN(void) { return NAN; }
void mxDestroyArray(mxArray* a) { Out g; disown(a); delete a; }
void mexErrMsgTxt(const char* s) { Out g; throw MexError{s}; }
void mexWarnMsgTxt(const char*) { ++warned; }
int mexPrintf(const char*, ...) { return 0; }
}
