#include "qpgen.hpp"
#include <algorithm>

namespace sim {
double KKT::worst() const {
	double w = 0; double v[4] = {stat, feas, compl_, sign};
	for (int i = 0; i < 4; ++i) { if (!(v[i] == v[i])) return 1e300; w = std::max(w, v[i]); }
	return w;
}
double objective(const QP& q, const std::vector<double>& x) {
	double f = 0;
	for (int i = 0; i < q.nv; ++i) { double h = 0; for (int j = 0; j < q.nv; ++j) h += q.H[i * q.nv + j] * x[j]; f += x[i] * (0.5 * h + q.g[i]); }
	return f;
}
double data_scale(const QP& q) {
	double s = 1;
	for (size_t i = 0; i < q.g.size(); ++i) s = std::max(s, std::fabs(q.g[i]));
	for (size_t i = 0; i < q.x.size(); ++i) s = std::max(s, std::fabs(q.x[i]));
	for (size_t i = 0; i < q.y.size(); ++i) s = std::max(s, std::fabs(q.y[i]));
	return s;
}

// residual check written from the definition: Hx + g = y_B + A'y_A, bounds, complementarity, signs
KKT kkt(const QP& q, const std::vector<double>& x, const std::vector<double>& y) {
	KKT k; k.stat = k.feas = k.compl_ = k.sign = 0; k.obj = objective(q, x);
	int n = q.nv, m = q.nc;
	k.objmag = 0; for (int i = 0; i < n; ++i) { k.objmag += std::fabs(q.g[i] * x[i]); for (int j = 0; j < n; ++j) k.objmag += std::fabs(q.H[i * n + j] * x[i] * x[j]); }   // size of the terms of the objective
	for (int i = 0; i < n; ++i) {
		double r = q.g[i] - y[i];
		for (int j = 0; j < n; ++j) r += q.H[i * n + j] * x[j];
		for (int j = 0; j < m; ++j) r -= q.A[j * n + i] * y[n + j];
		r = std::fabs(r); if (!(r <= k.stat)) k.stat = r;
	}
	for (int i = 0; i < n + m; ++i) {
		double v = 0, lo, hi;
		if (i < n) { v = x[i]; lo = q.lb[i]; hi = q.ub[i]; }
		else { for (int j = 0; j < n; ++j) v += q.A[(i - n) * n + j] * x[j]; lo = q.lbA[i - n]; hi = q.ubA[i - n]; }
		double d = std::max(lo - v, v - hi); if (!(v == v)) d = 1e300;
		if (d > k.feas) k.feas = d;
		if (!(y[i] == y[i])) { k.compl_ = 1e300; continue; }
		// a multiplier pulls towards the bound it belongs to
		double c = 0;
		if (y[i] > 0) { if (lo <= -INF) { if (y[i] > k.sign) k.sign = y[i]; } else c = std::min(y[i], std::fabs(v - lo)); }
		if (y[i] < 0) { if (hi >= INF) { if (-y[i] > k.sign) k.sign = -y[i]; } else c = std::min(-y[i], std::fabs(hi - v)); }
		if (c > k.compl_) k.compl_ = c;
	}
	return k;
}

static void make_matrices(QP& q, const QPSpec& s) {
	Rng r(mix(s.mseed, 77 + s.nv * 131 + s.nc * 17 + s.hk * 7 + s.sparse));
	int n = s.nv, m = s.nc;
	q.nv = n; q.nc = m; q.hk = s.hk;
	q.H.assign(n * n, 0.0); q.A.assign(m * n, 0.0);
	if (s.hk == HK_IDENT) for (int i = 0; i < n; ++i) q.H[i * n + i] = 1.0;
	else if (s.hk == HK_DIAG) for (int i = 0; i < n; ++i) q.H[i * n + i] = r.uni(0.5, 4);
	else if (s.hk == HK_POSDEF || s.hk == HK_SEMI || s.hk == HK_INDEF) {
		int k = s.hk == HK_SEMI ? std::max(1, n - 1 - (int)(r.next() % (uint64_t)std::max(1, n / 2))) : n;
		if (s.hk == HK_SEMI && n == 1) k = 0;
		std::vector<double> B(k * n);
		for (auto& v : B) { v = r.uni(-1, 1); if (r.range(0, 99) < s.sparse) v = 0; }
		if (s.hk == HK_SEMI) for (int i = 0; i < k; ++i) B[i * n + i] = (B[i * n + i] < 0 ? -1 : 1) * (0.7 + std::fabs(B[i * n + i]));
		for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) { double v = 0; for (int l = 0; l < k; ++l) v += (s.hk == HK_INDEF && l % 3 == 0 ? -1 : 1) * B[l * n + i] * B[l * n + j]; q.H[i * n + j] = v; }
		for (int i = 0; i < n; ++i) for (int j = 0; j < i; ++j) q.H[i * n + j] = q.H[j * n + i];
		if (s.hk == HK_POSDEF) { double c = r.uni(0.5, 2.0); for (int i = 0; i < n; ++i) q.H[i * n + i] += c; }
	}
	for (int i = 0; i < m; ++i) {
		double nrm = 0;
		for (int j = 0; j < n; ++j) { double v = r.uni(-1, 1); if (r.range(0, 99) < s.sparse) v = 0; q.A[i * n + j] = v; nrm += v * v; }
		if (nrm < 0.09) { int j = (int)r.range(0, n - 1); q.A[i * n + j] = r.sgn() * r.uni(0.5, 1.0); }
	}
}

// smallest distance of any row of the set to the span of the others is bounded below by incremental orthogonalisation
static bool independent(const std::vector<std::vector<double> >& basis, std::vector<double> v, double thr, std::vector<double>& out) {
	double n0 = 0; for (double a : v) n0 += a * a; n0 = std::sqrt(n0);
	for (int pass = 0; pass < 2; ++pass)
		for (auto& b : basis) { double d = 0; for (size_t i = 0; i < v.size(); ++i) d += b[i] * v[i]; for (size_t i = 0; i < v.size(); ++i) v[i] -= d * b[i]; }
	double n1 = 0; for (double a : v) n1 += a * a; n1 = std::sqrt(n1);
	if (n1 < thr * std::max(n0, 1e-12) || n1 < 1e-6) return false;
	for (double& a : v) a /= n1;
	out = v; return true;
}

static void null_basis(const std::vector<std::vector<double> >& act, int n, std::vector<std::vector<double> >& Z) {
	std::vector<std::vector<double> > all = act;
	for (int i = 0; i < n; ++i) {
		std::vector<double> e(n, 0.0), o; e[i] = 1;
		if (independent(all, e, 1e-6, o)) { all.push_back(o); Z.push_back(o); }
	}
}

// the null space of the active rows must carry curvature: smallest eigenvalue of Z'HZ by inverse-free Cholesky
static bool curvature_ok(const QP& q, const std::vector<std::vector<double> >& Z, double thr) {
	int k = (int)Z.size(), n = q.nv; if (!k) return true;
	std::vector<double> M(k * k);
	for (int a = 0; a < k; ++a) for (int b = 0; b < k; ++b) { double v = 0; for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) v += Z[a][i] * q.H[i * n + j] * Z[b][j]; M[a * k + b] = v; }
	for (int a = 0; a < k; ++a) M[a * k + a] -= thr;
	for (int j = 0; j < k; ++j) {
		double d = M[j * k + j]; for (int l = 0; l < j; ++l) d -= M[j * k + l] * M[j * k + l];
		if (d <= 1e-9) return false;
		d = std::sqrt(d); M[j * k + j] = d;
		for (int i = j + 1; i < k; ++i) { double v = M[i * k + j]; for (int l = 0; l < j; ++l) v -= M[i * k + l] * M[j * k + l]; M[i * k + j] = v / d; }
	}
	return true;
}

QP make_qp(const QPSpec& s) {
	QP q; make_matrices(q, s);
	int n = q.nv, m = q.nc;
	Rng r(mix(s.vseed, mix(s.mseed, 991 + s.vk)));
	bool nice = s.vk != VK_DEGEN;
	double sp = s.spread > 0 ? std::pow(10.0, r.uni(-s.spread, s.spread) * 0.5) : 1.0;
	for (int attempt = 0; attempt < 60; ++attempt) {
		q.g.assign(n, 0); q.lb.assign(n, -INF); q.ub.assign(n, INF); q.lbA.assign(m, -INF); q.ubA.assign(m, INF);
		q.x.assign(n, 0); q.y.assign(n + m, 0); q.ws.assign(n + m, 0);
		for (double& v : q.x) v = r.uni(-2, 2) * sp;
		// choose a linearly independent working set
		std::vector<int> order(n + m); for (int i = 0; i < n + m; ++i) order[i] = i;
		for (int i = n + m - 1; i > 0; --i) std::swap(order[i], order[r.range(0, i)]);
		int want = 0; for (int i = 0; i < n; ++i) want += r.range(0, 99) < s.act;
		std::vector<std::vector<double> > basis;
		bool fullws = s.hk == HK_ZERO;
		for (int k = 0; k < n + m; ++k) {
			if ((int)basis.size() >= (fullws ? n : want)) {
				if (s.hk != HK_SEMI && s.hk != HK_INDEF) break;
				std::vector<std::vector<double> > Z; null_basis(basis, n, Z);
				if (curvature_ok(q, Z, 0.1)) break;
				if ((int)basis.size() >= n) break;
			}
			int i = order[k]; std::vector<double> row(n, 0.0), o;
			if (i < n) row[i] = 1; else for (int j = 0; j < n; ++j) row[j] = q.A[(i - n) * n + j];
			if (!independent(basis, row, nice ? 0.25 : 0.02, o)) continue;
			basis.push_back(o);
			q.ws[i] = r.chance(0.5) ? -1 : 1;
		}
		std::vector<std::vector<double> > Z; null_basis(basis, n, Z);
		bool curv = curvature_ok(q, Z, s.hk == HK_POSDEF || s.hk == HK_IDENT || s.hk == HK_DIAG ? 0.2 : 0.1);
		if (fullws) curv = (int)basis.size() == n;
		if (!curv) continue;
		q.unique = nice;
		// multipliers, slacks
		for (int i = 0; i < n + m; ++i) {
			double v = 0; if (i < n) v = q.x[i]; else for (int j = 0; j < n; ++j) v += q.A[(i - n) * n + j] * q.x[j];
			double &lo = i < n ? q.lb[i] : q.lbA[i - n], &hi = i < n ? q.ub[i] : q.ubA[i - n];
			if (q.ws[i] != 0) {
				double mu = r.uni(0.3, 2.0) * sp;
				if (!nice && r.chance(0.3)) mu = 0;
				if (r.range(0, 99) < s.eq) { lo = hi = v; q.y[i] = mu * r.sgn(); q.ws[i] = -1; }
				else if (q.ws[i] < 0) { lo = v; q.y[i] = mu; if (r.range(0, 99) < s.fin) hi = v + r.uni(0.5, 4) * sp; }
				else { hi = v; q.y[i] = -mu; if (r.range(0, 99) < s.fin) lo = v - r.uni(0.5, 4) * sp; }
			} else {
				if (r.range(0, 99) < s.fin) lo = v - (!nice && r.chance(0.25) ? 0.0 : r.uni(0.3, 4)) * sp;
				if (r.range(0, 99) < s.fin) hi = v + (!nice && r.chance(0.25) && lo < v ? 0.0 : r.uni(0.3, 4)) * sp;
			}
		}
		for (int i = 0; i < n; ++i) {
			double v = q.y[i];
			for (int j = 0; j < n; ++j) v -= q.H[i * n + j] * q.x[j];
			for (int j = 0; j < m; ++j) v += q.A[j * n + i] * q.y[n + j];
			q.g[i] = v;
		}
		q.f = objective(q, q.x);
		q.truth = T_SOLVABLE; q.ok = true;
		if (s.vk == VK_INF_BOUNDS) {
			int i = (int)r.range(0, n - 1); double c = r.uni(-2, 2); q.lb[i] = c + r.uni(0.5, 2); q.ub[i] = c; q.truth = T_INFEASIBLE;
		} else if (s.vk == VK_INF_CONBND) {
			if (!m) { q.ok = false; return q; }
			int i = (int)r.range(0, m - 1); double c = r.uni(-2, 2); q.lbA[i] = c + r.uni(0.5, 2); q.ubA[i] = c; q.truth = T_INFEASIBLE;
		} else if (s.vk == VK_INF_CONSTR) {
			if (!m) { q.ok = false; return q; }
			// box the variables of one row so that the row cannot reach its lower (upper) side
			int i = (int)r.range(0, m - 1); double mx = 0, mn = 0;
			for (int j = 0; j < n; ++j) {
				if (q.lb[j] <= -INF) q.lb[j] = q.x[j] - r.uni(0.3, 2);
				if (q.ub[j] >= INF) q.ub[j] = q.x[j] + r.uni(0.3, 2);
				double a = q.A[i * n + j]; mx += std::max(a * q.lb[j], a * q.ub[j]); mn += std::min(a * q.lb[j], a * q.ub[j]);
			}
			if (r.chance(0.5)) { q.lbA[i] = mx + r.uni(0.5, 2); if (q.ubA[i] < q.lbA[i]) q.ubA[i] = r.chance(0.5) ? INF : q.lbA[i] + 1.0; }
			else { q.ubA[i] = mn - r.uni(0.5, 2); if (q.lbA[i] > q.ubA[i]) q.lbA[i] = r.chance(0.5) ? -INF : q.ubA[i] - 1.0; }
			q.truth = T_INFEASIBLE;
		} else if (s.vk == VK_UNBOUNDED) {
			// needs a direction without curvature: free one coordinate that is flat in H and move along it
			std::vector<double> d;
			if (s.hk == HK_ZERO) { d.assign(n, 0.0); for (double& v : d) v = r.uni(-1, 1); }
			else if (s.hk == HK_SEMI) {
				// null vector of H by orthogonalising against its rows
				std::vector<std::vector<double> > b; std::vector<double> o;
				for (int i = 0; i < n; ++i) { std::vector<double> row(q.H.begin() + i * n, q.H.begin() + (i + 1) * n); if (independent(b, row, 1e-9, o)) b.push_back(o); }
				std::vector<std::vector<double> > Zn; null_basis(b, n, Zn);
				if (Zn.empty()) { q.ok = false; return q; }
				d = Zn[r.range(0, (int64_t)Zn.size() - 1)];
			} else { q.ok = false; return q; }
			for (int i = 0; i < n; ++i) { if (d[i] > 0) q.ub[i] = INF; else if (d[i] < 0) q.lb[i] = -INF; }
			for (int i = 0; i < m; ++i) { double v = 0; for (int j = 0; j < n; ++j) v += q.A[i * n + j] * d[j]; if (v > 0) q.ubA[i] = INF; else q.lbA[i] = -INF; if (std::fabs(v) < 1e-12) { q.lbA[i] = -INF; q.ubA[i] = INF; } }
			double gd = 0, dd = 0; for (int i = 0; i < n; ++i) { gd += q.g[i] * d[i]; dd += d[i] * d[i]; }
			if (gd > -0.5 * dd) { double k = (gd + r.uni(0.5, 2.0) * dd) / dd; for (int i = 0; i < n; ++i) q.g[i] -= k * d[i]; }
			q.truth = T_UNBOUNDED;
		}
		return q;
	}
	q.ok = false;
	return q;
}
} // namespace sim
