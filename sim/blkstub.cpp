#include <cmath>
#include <cstdarg>
#include <cstring>
#include <limits>
#include <new>
#include "blkstub.hpp"
#include "seams.hpp"
#include "scilab/stack-c.h"
#include "scilab/Scierror.h"
#undef Rhs
#undef Fin
#undef Max
using namespace sim;
extern "C" {
void* sim_malloc(size_t n) { try { return ::operator new(n ? n : 1); } catch (std::bad_alloc&) { return 0; } }
void* sim_calloc(size_t a, size_t b) { void* p = sim_malloc(a * b); if (p) memset(p, 0, a * b); return p; }
void sim_free(void* p) { ::operator delete(p); }
int qpOASESgateway_();
}
namespace sim {
BlkFns blk_b(); BlkFns blk_q(); BlkFns blk_s();
BlkFns blk_fns[3] = {blk_b(), blk_q(), blk_s()};
#ifdef SIM_ASAN
static const int G = 0;
#else
static const int G = 64;
#endif
static const double GV = std::numeric_limits<double>::quiet_NaN();
void Block::start(int k, const std::vector<mxArray*>& params, const std::vector<int>& widths, bool sc, uint64_t seed) {
	kind = k; scattered = sc; width = widths; S.param = params; for (auto* a : params) a->lend();
	blk_fns[k].sizes(&S); if ((int)params.size() != S.params_expected || (int)widths.size() != S.ports_in) { failed = true; err = "ports"; return; }
	S.inw = widths; Rng r(seed);
	for (size_t i = 0; i < widths.size(); ++i) {
		int w = widths[i]; size_t stride = scattered && !S.contiguous[i] ? 3 : 1; mem.push_back(std::vector<double>((size_t)w * stride + (size_t)G + (w ? 0 : 1), GV)); std::vector<size_t> a; for (int j = 0; j < w; ++j) a.push_back((size_t)j * stride + (stride > 1 ? (size_t)r.range(0, 2) : 0));
		if (stride > 1) for (size_t j = a.size(); j > 1; --j) std::swap(a[j - 1], a[(size_t)r.range(0, (int64_t)j - 1)]); at.push_back(a);
	}
	for (size_t i = 0; i < widths.size(); ++i) { const double** p = new const double*[(size_t)widths[i] + 1]; for (int j = 0; j < widths[i]; ++j) p[j] = &mem[i][at[i][(size_t)j]]; p[widths[i]] = 0; S.ptrs.push_back(p); S.base.push_back(mem[i].data()); }
	for (int w : S.outw) { double* p = new double[(size_t)(w + G)]; for (int j = 0; j < w; ++j) p[j] = 0; for (int j = 0; j < G; ++j) p[w + j] = GV; S.out.push_back(p); }
	S.pw = new void*[(size_t)(S.npw + G)]; for (int j = 0; j < S.npw; ++j) S.pw[j] = 0; for (int j = 0; j < G; ++j) S.pw[S.npw + j] = this;
	{ Sut g; blk_fns[k].times(&S); try { blk_fns[k].start(&S); } catch (MexError& e) { Out o; failed = true; err = e.msg; } } if (S.error) { failed = true; err = S.error; }
}
void Block::step(const std::vector<std::vector<double> >& in, std::vector<double>& out) {
	for (size_t i = 0; i < in.size(); ++i) for (size_t j = 0; j < in[i].size() && j < at[i].size(); ++j) mem[i][at[i][j]] = in[i][j];
	std::vector<std::vector<double> > keep = mem; { Sut g; try { blk_fns[kind].outputs(&S, 0); } catch (MexError& e) { Out o; failed = true; err = e.msg; } } if (S.error) { failed = true; err = S.error; }
	for (size_t i = 0; i < mem.size(); ++i) if (memcmp(keep[i].data(), mem[i].data(), mem[i].size() * 8)) { err = "input modified"; width[0] = -1; }
	for (size_t i = 0; i < S.out.size(); ++i) out.insert(out.end(), S.out[i], S.out[i] + S.outw[i]);
}
void Block::terminate() { Sut g; try { blk_fns[kind].terminate(&S); } catch (MexError& e) { Out o; failed = true; err = e.msg; } }
int Block::state() {
	if (!width.empty() && width[0] < 0) return 1; for (auto* a : S.param) if (a->state()) return a->state();
	for (size_t i = 0; i < S.out.size(); ++i) for (int j = 0; j < G; ++j) if (memcmp(&S.out[i][S.outw[i] + j], &GV, 8)) return 2;
	if (S.pw) for (int j = 0; j < G; ++j) if (S.pw[S.npw + j] != this) return 2;
	return 0;
}
Block::~Block() { for (auto* a : S.param) delete a; for (auto* p : S.ptrs) delete[] p; for (auto* p : S.out) delete[] p; delete[] S.pw; }

// ------------------------------------------------------------------ Scilab
struct SciVar { char t = 0; int m = 0, n = 0; char* mem = 0; size_t bytes = 0; };
static std::vector<SciVar> vars; static const std::vector<SciArg>* args; static SciCall* cur; static int want_lhs; static uint64_t dirt;
static const char* names[] = {"qpOASES", "qpOASES_init", "qpOASES_initSB", "qpOASES_initVM", "qpOASES_hotstart", "qpOASES_hotstartSB", "qpOASES_hotstartVM", "qpOASES_cleanup", "qpOASES_cleanupSB", "qpOASES_cleanupVM"};
static const size_t SG = (size_t)G * 8;
static void make(SciVar& v, char t, int m, int n) { v.t = t; v.m = m; v.n = n; v.bytes = (size_t)m * (size_t)n * (t == 'i' ? 4 : 8); v.mem = (char*)malloc(v.bytes + SG + 1); for (size_t i = 0; i < v.bytes; ++i) v.mem[i] = (char)(dirt >> (8 * (i % 8))); for (size_t i = 0; i < SG; ++i) v.mem[v.bytes + i] = (char)0xC7; }
static void serr(int nr, const std::string& s) { cur->failed = true; cur->errnr = nr; cur->err = s; }
void sci_call(int fin, int nlhs, const std::vector<SciArg>& in, SciCall& c, uint64_t garbage) {
	vars.assign(32, SciVar()); args = &in; cur = &c; want_lhs = nlhs; dirt = garbage; sim_rhs = (int)in.size(); sim_fin = fin; for (int& i : sim_lhs) i = 0;
	struct End { ~End() { for (auto& v : vars) if (v.mem) { for (size_t i = 0; i < SG; ++i) if (v.mem[v.bytes + i] != (char)0xC7) cur->overrun = true; memset(v.mem, 0xA5, v.bytes); free(v.mem); } vars.clear(); } } e;      // the stack is gone after the call
	{ Sut g; qpOASESgateway_(); }
	if (!c.failed) for (int i = 1; i <= (nlhs < 1 ? 1 : nlhs); ++i) { int k = sim_lhs[i]; if (k <= 0 || k >= 32 || !vars[(size_t)k].t) { if (fin > 7) break; c.overrun = true; break; } SciVar& v = vars[(size_t)k]; std::vector<double> d; for (int j = 0; j < v.m * v.n; ++j) d.push_back(v.t == 'i' ? (double)((int*)v.mem)[j] : ((double*)v.mem)[j]); c.out.push_back(d); c.size.push_back(std::make_pair(v.m, v.n)); }
}
}
extern "C" {
int sim_lhs[16], sim_rhs, sim_fin;
int Scierror(int n, const char* f, ...) { Out g; char b[400]; va_list a; va_start(a, f); vsnprintf(b, sizeof b, f, a); va_end(a); serr(n, b); return 0; }
int sim_checkrhs(const char* f, int lo, int hi) { Out g; if (strcmp(f, names[sim_fin - 1])) serr(1, "name"); if (sim_rhs < lo || sim_rhs > hi) { serr(77, "wrong number of arguments"); return 0; } return 1; }
int sim_checklhs(const char*, int lo, int hi) { Out g; int l = want_lhs < 1 ? 1 : want_lhs; if (l < lo || l > hi) { serr(78, "wrong number of results"); return 0; } return 1; }
int sim_getrhs(int n, const char* t, int* m, int* k, int* l) {
	Out g; if (n < 1 || n > (int)args->size()) { serr(77, "argument missing"); return 0; } const SciArg& a = (*args)[(size_t)n - 1]; if (a.str) { serr(53, "wrong type of argument"); return 0; }
	SciVar& v = vars[(size_t)n]; if (v.mem) { serr(1, "fetched twice"); return 0; } make(v, t[0] == 'i' ? 'i' : 'd', a.m, a.n); for (int j = 0; j < a.m * a.n; ++j) if (v.t == 'i') ((int*)v.mem)[j] = std::fabs(a.v[(size_t)j]) < 2e9 ? (int)a.v[(size_t)j] : 0; else ((double*)v.mem)[j] = a.v[(size_t)j];
	*m = a.m; *k = a.n; *l = n; return 1;
}
int sim_create(int n, const char* t, int* m, int* k, int* l) { Out g; if (n < 1 || n > 31 || vars[(size_t)n].mem || *m < 0 || *k < 0) { serr(1, "variable cannot be created"); return 0; } make(vars[(size_t)n], t[0] == 'i' ? 'i' : 'd', *m, *k); *l = n; return 1; }
double* stk(int l) { return l > 0 && l < 32 ? (double*)vars[(size_t)l].mem : 0; }
int* istk(int l) { return l > 0 && l < 32 ? (int*)vars[(size_t)l].mem : 0; }
int sci_gateway(char* name, int (*f)(char*)) { return f(name); }
}
