#include <qpOASES.hpp>
#include <cstdio>
#include <cstring>
#include <cstdlib>
#include <cmath>
#include <vector>
#include <algorithm>
using namespace qpOASES;
typedef std::vector<double> V;
struct Rnd { unsigned long s; Rnd(unsigned long k) : s(k * 2654435761UL + 88172645463325252UL) { for (int i = 0; i < 8; ++i) nx(); } unsigned long nx() { s ^= s << 13; s ^= s >> 7; s ^= s << 17; return s; } double u(double a, double b) { return a + (b - a) * (double)(nx() >> 11) / 9007199254740992.0; } int i(int a, int b) { return a + (int)(nx() % (unsigned long)(b - a + 1)); } };
// strictly convex QP, feasible by construction
struct Q { int n, m; V H, A, g, lb, ub, lbA, ubA;
	void mats(Rnd& r, int n_, int m_) { n = n_; m = m_; H.assign(n * n, 0); A.assign(m * n + 1, 0); V B(n * n); for (auto& b : B) b = r.u(-1, 1); for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) { double v = i == j ? 0.7 : 0; for (int k = 0; k < n; ++k) v += B[k * n + i] * B[k * n + j]; H[i * n + j] = v; } for (int i = 0; i < n; ++i) for (int j = 0; j < i; ++j) H[i * n + j] = H[j * n + i]; for (int i = 0; i < m * n; ++i) A[i] = r.u(-1, 1); }
	void vecs(Rnd& r) { V x(n); g.resize(n); lb.resize(n); ub.resize(n); lbA.assign(m + 1, 0); ubA.assign(m + 1, 0); for (int i = 0; i < n; ++i) { x[i] = r.u(-2, 2); g[i] = r.u(-4, 4); lb[i] = x[i] - r.u(0.1, 2); ub[i] = x[i] + r.u(0.1, 2); } for (int j = 0; j < m; ++j) { double v = 0; for (int i = 0; i < n; ++i) v += A[j * n + i] * x[i]; lbA[j] = v - r.u(0.1, 1); ubA[j] = v + r.u(0.1, 1); } }
	double kkt(const V& x, const V& y) const { double w = 0; for (int i = 0; i < n; ++i) { double s = g[i] - y[i]; for (int j = 0; j < n; ++j) s += H[i * n + j] * x[j]; for (int j = 0; j < m; ++j) s -= A[j * n + i] * y[n + j]; w = std::max(w, std::fabs(s)); if (s != s) return 1e300; } for (int i = 0; i < n + m; ++i) { double v = 0, lo, hi; if (i < n) { v = x[i]; lo = lb[i]; hi = ub[i]; } else { for (int j = 0; j < n; ++j) v += A[(i - n) * n + j] * x[j]; lo = lbA[i - n]; hi = ubA[i - n]; } w = std::max(w, std::max(lo - v, v - hi)); if (y[i] > 0) w = std::max(w, std::min(y[i], std::fabs(v - lo))); if (y[i] < 0) w = std::max(w, std::min(-y[i], std::fabs(hi - v))); } return w; } };
inline void quiet(QProblemB& p, int preset = 0) { Options o; if (preset == 1) o.setToMPC(); else if (preset == 2) o.setToReliable(); else if (preset == 3) o.setToFast(); else o.setToDefault(); o.printLevel = PL_NONE; p.setOptions(o); }
inline V xy(QProblem& p, int n, int m) { V v(2 * n + m + 1); p.getPrimalSolution(&v[0]); p.getDualSolution(&v[n]); v[2 * n + m] = p.getObjVal(); return v; }
inline bool same(const V& a, const V& b) { return a.size() == b.size() && (a.empty() || !memcmp(&a[0], &b[0], a.size() * 8)); }
