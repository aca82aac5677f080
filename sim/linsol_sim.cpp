// Simulated sparse symmetric indefinite solver with the interfaces of MA27 and MA57 (the HSL routines are not available
// here), plus the LAPACK routines the Schur-complement class needs and the library's own replacement lacks.
// Dense LDL^T with complete (Bunch-Parlett) pivoting, deterministic; every entry point can be made to fail.
#include <algorithm>
#include <cmath>
#include <cstring>
#include <vector>
#include "linsol.hpp"
#include "seams.hpp"
typedef long fint;
namespace {
int64_t n_calls = 0, n_fired = 0, fail_at = -1; int fail_kind = 0, fail_mode = 0; bool fail_persist = false; int64_t since = 0;
// what = 1 analysis, 2 factorisation, 4 solve.  kind: mask of entry points that may fail (0: all)
bool faulty(int what) {
	++n_calls; if (fail_at < 0) return false; if (fail_kind && !(fail_kind & what)) return false;
	bool f = fail_persist ? since >= fail_at : since == fail_at; ++since; if (f) ++n_fired; return f;
}
struct Factor { int n = 0; std::vector<double> m; std::vector<fint> perm; std::vector<char> two; int rank = 0, neg = 0; };
// dense symmetric m (full storage), in place: unit lower L below the diagonal (of blocks), D on it
void factorise(Factor& f) {
	int n = f.n; std::vector<double>& a = f.m; f.perm.resize(n); f.two.assign(n, 0); for (int i = 0; i < n; ++i) f.perm[i] = i;
	double big = 0; for (double x : a) big = std::max(big, fabs(x)); const double zero = 3e-15 * big, alpha = (1 + sqrt(17.0)) / 8;
	auto swp = [&](int i, int j) { if (i == j) return; for (int k = 0; k < n; ++k) std::swap(a[(size_t)i * n + k], a[(size_t)j * n + k]); for (int k = 0; k < n; ++k) std::swap(a[(size_t)k * n + i], a[(size_t)k * n + j]); std::swap(f.perm[i], f.perm[j]); };
	f.neg = 0; int k = 0;
	while (k < n) {
		double d = -1, o = -1; int di = k, oi = k, oj = k;
		for (int i = k; i < n; ++i) { double x = fabs(a[(size_t)i * n + i]); if (x > d) { d = x; di = i; } for (int j = k; j < i; ++j) { double y = fabs(a[(size_t)i * n + j]); if (y > o) { o = y; oi = i; oj = j; } } }
		if (std::max(d, o) <= zero) break;
		if (d >= alpha * o) {
			swp(k, di); double p = a[(size_t)k * n + k]; if (p < 0) ++f.neg;
			for (int i = k + 1; i < n; ++i) { double l = a[(size_t)i * n + k] / p; for (int j = k + 1; j <= i; ++j) { a[(size_t)i * n + j] -= l * a[(size_t)j * n + k]; } }
			for (int i = k + 1; i < n; ++i) for (int j = k + 1; j < i; ++j) a[(size_t)j * n + i] = a[(size_t)i * n + j];
			for (int i = k + 1; i < n; ++i) { a[(size_t)i * n + k] /= p; a[(size_t)k * n + i] = 0; }
			++k;
		} else {
			swp(k, oj); if (oi == k) oi = oj; swp(k + 1, oi);
			double p = a[(size_t)k * n + k], q = a[(size_t)(k + 1) * n + k], s = a[(size_t)(k + 1) * n + k + 1], det = p * s - q * q; ++f.neg; if (det > 0 && p < 0) ++f.neg;
			std::vector<double> l1(n, 0.0), l2(n, 0.0);
			for (int i = k + 2; i < n; ++i) { double u = a[(size_t)i * n + k], v = a[(size_t)i * n + k + 1]; l1[i] = (u * s - v * q) / det; l2[i] = (v * p - u * q) / det; }
			for (int i = k + 2; i < n; ++i) for (int j = k + 2; j <= i; ++j) a[(size_t)i * n + j] -= l1[i] * a[(size_t)j * n + k] + l2[i] * a[(size_t)j * n + k + 1];
			for (int i = k + 2; i < n; ++i) for (int j = k + 2; j < i; ++j) a[(size_t)j * n + i] = a[(size_t)i * n + j];
			for (int i = k + 2; i < n; ++i) { a[(size_t)i * n + k] = l1[i]; a[(size_t)i * n + k + 1] = l2[i]; a[(size_t)k * n + i] = a[(size_t)(k + 1) * n + i] = 0; }
			f.two[k] = f.two[k + 1] = 1; k += 2;
		}
	}
	f.rank = k;
}
void backsolve(int n, const double* a, const fint* perm, const fint* two, double* b) {
	std::vector<double> x((size_t)n); for (int i = 0; i < n; ++i) x[i] = b[perm[i]];
	for (int i = 0; i < n; ++i) for (int j = 0; j < i; ++j) { if (two[i] && two[j] && j == i - 1 && (two[i] == 2)) continue; x[i] -= a[(size_t)i * n + j] * x[j]; }
	for (int k = 0; k < n;) {
		if (two[k]) { double p = a[(size_t)k * n + k], q = a[(size_t)(k + 1) * n + k], s = a[(size_t)(k + 1) * n + k + 1], det = p * s - q * q, u = x[k], v = x[k + 1]; x[k] = (u * s - v * q) / det; x[k + 1] = (v * p - u * q) / det; k += 2; }
		else { x[k] /= a[(size_t)k * n + k]; ++k; }
	}
	for (int i = n - 1; i >= 0; --i) for (int j = i + 1; j < n; ++j) { if (two[i] && two[j] && j == i + 1 && two[j] == 2) continue; x[i] -= a[(size_t)j * n + i] * x[j]; }
	for (int i = 0; i < n; ++i) b[perm[i]] = x[i];
}
Factor assemble(fint n, fint nz, const fint* irn, const fint* jcn, const double* a) {
	Factor f; f.n = (int)n; f.m.assign((size_t)n * n, 0.0);
	for (fint k = 0; k < nz; ++k) { fint i = irn[k] - 1, j = jcn[k] - 1; if (i < 0 || j < 0 || i >= n || j >= n) { if (!sim::heap.error) sim::heap.error = "linear solver given an index outside the matrix"; continue; } f.m[(size_t)i * n + j] += a[k]; if (i != j) f.m[(size_t)j * n + i] += a[k]; }
	factorise(f); return f;
}
// first of a 2x2 pair is marked 1, second 2
void mark(const Factor& f, fint* perm, fint* two) { int second = 0; for (int i = 0; i < f.n; ++i) { perm[i] = f.perm[i]; if (f.two[i]) { two[i] = second ? 2 : 1; second = !second; } else two[i] = 0; } }
} // namespace

namespace linsol {
void reset() { n_calls = n_fired = 0; arm(-1, 0, false, 0); }
void arm(int64_t at, int kind, bool persist, int mode) { fail_at = at; fail_kind = kind; fail_persist = persist; fail_mode = mode; since = 0; }
int64_t calls() { return n_calls; } int64_t fired() { return n_fired; } bool available() { return true; }
}

extern "C" {
void ma27id_(fint* icntl, double* cntl) { sim::Out out; for (int i = 0; i < 30; ++i) icntl[i] = 0; for (int i = 0; i < 5; ++i) cntl[i] = 0; icntl[0] = icntl[1] = 6; cntl[0] = 0.1; cntl[1] = 1; }
void ma27ad_(fint* n, fint* nz, const fint*, const fint*, fint* iw, fint* liw, fint* ikeep, fint* iw1, fint* nsteps, fint*, fint*, double*, fint* info, double* ops) {
	sim::Out out; sim::yield_point(2); for (int i = 0; i < 20; ++i) info[i] = 0; *ops = 0; *nsteps = *n; info[4] = (*n) * (*n); info[5] = 2 * (*n) + 2; (void)nz;
	if (faulty(1)) { info[0] = -3; info[1] = 2 * *liw + 10; info[4] = info[5] = 0; return; }
	for (fint i = 0; i < *liw; ++i) iw[i] = 0; for (fint i = 0; i < 3 * *n; ++i) ikeep[i] = i; for (fint i = 0; i < 2 * *n; ++i) iw1[i] = 0;
}
void ma27bd_(fint* n, fint* nz, const fint* irn, const fint* icn, double* a, fint* la, fint* iw, fint* liw, fint*, fint* nsteps, fint* maxfrt, fint* iw1, fint*, double*, fint* info) {
	sim::Out out; sim::yield_point(2); for (int i = 0; i < 20; ++i) info[i] = 0; *maxfrt = *n; (void)nsteps; (void)iw1;
	bool bad = faulty(2);
	if (bad && fail_mode != 1) { info[0] = fail_mode == 2 ? -3 : -4; info[1] = 100; return; }
	if (*la < (*n) * (*n) || *liw < 2 * *n) { info[0] = *la < (*n) * (*n) ? -4 : -3; info[1] = (*n) * (*n); return; }
	Factor f = assemble(*n, *nz, irn, icn, a);
	memcpy(a, f.m.data(), f.m.size() * sizeof(double)); mark(f, iw, iw + *n); info[14] = f.neg;
	if (bad) f.rank = std::min(f.rank, (int)*n - 1);
	if (f.rank < *n) { info[0] = (bad && *n % 2) || (!bad && f.rank == 0) ? -5 : 3; info[1] = f.rank; }
}
void ma27cd_(fint* n, double* a, fint* la, fint* iw, fint* liw, double* w, fint* maxfrt, double* rhs, fint*, fint*, fint*, double*) {
	sim::Out out; sim::yield_point(2); ++n_calls; (void)la; (void)liw; for (fint i = 0; i < *maxfrt; ++i) w[i] = 0; backsolve((int)*n, a, iw, iw + *n, rhs);
}
void ma57id_(double* cntl, fint* icntl) { sim::Out out; for (int i = 0; i < 5; ++i) cntl[i] = 0; for (int i = 0; i < 20; ++i) icntl[i] = 0; cntl[0] = 0.01; cntl[1] = 1e-20; }
void ma57ad_(fint* n, fint* ne, const fint* irn, const fint* jcn, fint* lkeep, fint* keep, fint*, fint*, fint* info, double* rinfo) {
	sim::Out out; sim::yield_point(2); for (int i = 0; i < 40; ++i) info[i] = 0; for (int i = 0; i < 20; ++i) rinfo[i] = 0;
	info[8] = (*n) * (*n); info[9] = 5 + 3 * (*n);
	if (faulty(1) || *lkeep < 42 + 2 * *ne) { info[0] = -4; info[1] = *lkeep * 2; info[8] = info[9] = 0; return; }
	for (fint k = 0; k < *ne; ++k) { keep[42 + k] = irn[k]; keep[42 + *ne + k] = jcn[k]; }
}
void ma57bd_(fint* n, fint* ne, double* a, double* fact, fint* lfact, fint* ifact, fint* lifact, fint*, fint* keep, fint*, fint*, double*, fint* info, double* rinfo) {
	sim::Out out; sim::yield_point(2); for (int i = 0; i < 40; ++i) info[i] = 0; for (int i = 0; i < 20; ++i) rinfo[i] = 0;
	bool bad = faulty(2);
	if ((bad && fail_mode != 1) || *lfact < (*n) * (*n) || *lifact < 5 + 3 * *n) { info[0] = fail_mode == 2 ? -4 : -3; info[1] = 100; return; }
	Factor f = assemble(*n, *ne, keep + 42, keep + 42 + *ne, a);
	memcpy(fact, f.m.data(), f.m.size() * sizeof(double)); info[23] = f.neg;
	if (bad) f.rank = std::min(f.rank, (int)*n - 1);
	ifact[0] = ifact[1] = 0; ifact[2] = 1; ifact[3] = ifact[4] = *n;
	for (int i = 0; i < f.n; ++i) ifact[5 + i] = f.two[i] && i < f.rank ? -(f.perm[i] + 1) : f.perm[i] + 1;
	{ int second = 0; for (int i = 0; i < f.n; ++i) { ifact[5 + *n + i] = f.perm[i]; if (f.two[i]) { ifact[5 + 2 * *n + i] = second ? 2 : 1; second = !second; } else ifact[5 + 2 * *n + i] = 0; } }
	info[24] = f.rank; if (f.rank < *n) info[0] = 4;
}
void ma57cd_(fint*, fint* n, double* fact, fint*, fint* ifact, fint*, fint* nrhs, double* rhs, fint* lrhs, double* work, fint* lwork, fint*, fint*, fint* info) {
	sim::Out out; sim::yield_point(2); for (int i = 0; i < 40; ++i) info[i] = 0; (void)nrhs; (void)lrhs;
	if (faulty(4)) { info[0] = -1; if (fail_mode == 2) for (fint i = 0; i < *n; ++i) rhs[i] = 1e30 * (i % 2 ? 1 : -1); return; }
	for (fint i = 0; i < *lwork; ++i) work[i] = 0;
	backsolve((int)*n, fact, ifact + 5 + *n, ifact + 5 + 2 * *n, rhs);
}

void dtrtrs_(const char* uplo, const char* trans, const char* diag, const unsigned long* n_, const unsigned long* nrhs, double* a, const unsigned long* lda_, double* b, const unsigned long* ldb, long* info) {
	long n = (long)*n_, lda = (long)*lda_; bool up = *uplo == 'U' || *uplo == 'u', tr = *trans != 'N' && *trans != 'n', unit = *diag == 'U' || *diag == 'u'; *info = 0;
	if (!unit) for (long i = 0; i < n; ++i) if (a[i + i * lda] == 0.0) { *info = i + 1; return; }
	auto el = [&](long i, long j) { return tr ? a[j + i * lda] : a[i + j * lda]; }; bool upper = up != tr;
	for (unsigned long r = 0; r < *nrhs; ++r) { double* x = b + r * *ldb;
		if (upper) for (long i = n - 1; i >= 0; --i) { for (long j = i + 1; j < n; ++j) x[i] -= el(i, j) * x[j]; if (!unit) x[i] /= el(i, i); }
		else for (long i = 0; i < n; ++i) { for (long j = 0; j < i; ++j) x[i] -= el(i, j) * x[j]; if (!unit) x[i] /= el(i, i); } }
}
void dtrcon_(const char* norm, const char* uplo, const char* diag, const unsigned long* n_, double* a, const unsigned long* lda_, double* rcond, double*, const unsigned long*, long* info) {
	sim::Out out; long n = (long)*n_, lda = (long)*lda_; bool up = *uplo == 'U' || *uplo == 'u', inf = *norm == 'I' || *norm == 'i'; *info = 0; *rcond = 1; if (n == 0) return; *rcond = 0;
	std::vector<double> inv((size_t)n * n, 0.0); unsigned long one = (unsigned long)n, ld = (unsigned long)n; for (long i = 0; i < n; ++i) inv[(size_t)i * n + i] = 1; long k = 0; dtrtrs_(uplo, "N", diag, n_, &one, a, lda_, inv.data(), &ld, &k); if (k) return;
	auto nrm = [&](const double* m, long l, bool tri) { double best = 0; for (long i = 0; i < n; ++i) { double s = 0; for (long j = 0; j < n; ++j) { long r = inf ? i : j, c = inf ? j : i; if (tri && (up ? r > c : r < c)) continue; s += fabs(m[r + c * l]); } best = std::max(best, s); } return best; };
	double p = nrm(a, lda, true), q = nrm(inv.data(), n, false); if (p > 0 && q > 0) *rcond = 1 / p / q; if (!(*rcond == *rcond)) *rcond = 0;
}
void strtrs_(const char*, const char*, const char*, const unsigned long*, const unsigned long*, float*, const unsigned long*, float*, const unsigned long*, long* info) { *info = -1; }
void strcon_(const char*, const char*, const char*, const unsigned long*, float*, const unsigned long*, float*, float*, const unsigned long*, long* info) { *info = -1; }
}

// what the class prints on the process's own standard output, whatever the print level, is dropped
#include <cstdarg>
#include <cstdio>
extern "C" int __real_vfprintf(FILE*, const char*, va_list);
extern "C" int __wrap_vfprintf(FILE* f, const char* fm, va_list a) { if (f == stdout && sim::in_sut) return 0; return __real_vfprintf(f, fm, a); }
