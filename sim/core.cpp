// Oracles over recorded histories.  They use public behaviour only, and answers known by construction.
#include <algorithm>
#include <cstdio>
#include <cstdarg>
#include <cstdlib>
#include <cstring>
#include "judge.hpp"

namespace sim {
static std::string fmt(const char* f, ...) __attribute__((format(printf, 1, 2)));
static std::string fmt(const char* f, ...) { char b[900]; va_list a; va_start(a, f); vsnprintf(b, sizeof b, f, a); va_end(a); return b; }
static const char* opname(const Prog& p, int i, std::string& keep) { keep = i >= 0 && i < (int)p.ops.size() ? p.ops[i].str() : std::string("final destruction"); return keep.c_str(); }

Verdict died(const Prog& p, const Trace& t) {
	std::string k; uint64_t h = t.hash();
	if (t.hang) return Verdict::fail("hang", t.at_op, fmt("the call does not end within its step budget: op %d: %s", t.at_op, opname(p, t.at_op, k)), h);
	if (t.signal) return Verdict::fail("crash", t.at_op, fmt("the process died (%s %d) in op %d: %s", t.signal > 1000 ? "exit" : "signal", t.signal > 1000 ? t.signal - 1000 : t.signal, t.at_op, opname(p, t.at_op, k)), h);
	if (!t.heap_error.empty()) return Verdict::fail("heap", -1, t.heap_error, h);
	for (auto& r : t.recs) {
		if (r.exc == 2) return Verdict::fail("hang", r.op, fmt("the call exceeds its step budget: op %d: %s", r.op, opname(p, r.op, k)), h);
		if (r.exc == 3 || (r.exc == 1 && r.faults == 0)) return Verdict::fail("exception", r.op, fmt("unexpected exception out of op %d: %s", r.op, opname(p, r.op, k)), h);
	}
	return Verdict::ok(h);
}

std::string rec_diff(const Rec& a, const Rec& b, bool ignore_count) {
	if (a.name != b.name && a.name != "copied" && b.name != "copied") return fmt("operation %s against %s", a.name.c_str(), b.name.c_str());
	if (a.called != b.called) return "one call was made, the other not";
	if (a.exc != b.exc) return fmt("exception %d instead of %d", a.exc, b.exc);
	if (a.rc != b.rc) return fmt("return value %d instead of %d", a.rc, b.rc);
	if (a.nout != b.nout) return fmt("%ld working set recalculations reported instead of %ld", (long)a.nout, (long)b.nout);
	if (a.dv.size() != b.dv.size()) return fmt("%ld output values instead of %ld", (long)a.dv.size(), (long)b.dv.size());
	for (size_t i = 0; i < a.dv.size(); ++i) if (!(a.dv[i] == b.dv[i]) && !(a.dv[i] != a.dv[i] && b.dv[i] != b.dv[i])) return fmt("output value %ld is %.17g instead of %.17g", (long)i, a.dv[i], b.dv[i]);
	if (ignore_count) { Obs x = a.o, y = b.o; x.count = y.count = 0; return x.diff(y); }
	return a.o.diff(b.o);
}

// ------------------------------------------------------------------ the session model used by the oracles
struct Model {
	bool live = false; int ob = 0; uint64_t os = 0; bool tainted = false; bool fb0 = false;
	bool observed = false; int status = 0;      // last observed solver status
	bool degen_past = false;                   // went through a degenerate or failed solve since the last (re)start
	bool guessed = false; bool cb = false; char cls = 'Q';
	bool tweaked = false;                      // ever had options other than a preset
	bool vdegen = false;                       // met a degenerate QP since the last (re)start: multipliers may be off by more than the ratio tests notice
	bool strict = false;                       // known findings only: judge even where the solver is known to be unreliable
	bool lsf = false;                          // sparse variant: the linear solver failed since the last (re)start
	bool far = false;                          // was handed an unbounded QP since the last (re)start: iterates of magnitude 1e18 are behind it
};

// which outcomes may be demanded under which options (see DESIGN.md, calibration)
static bool plain(const Model& m) { return (m.ob == 0 || m.ob == 2) && m.os == 0; }
// MA27 does not tell which pivots vanish: a working set that became singular through a guess, a failure or degeneracy cannot be repaired and ends in an honest failure
static bool irreparable(const Model& m) { return m.lsf || (m.cls == 'Z' && strcmp(SIM_VARIANT, "ma27") == 0 && (m.guessed || m.degen_past)); }
static bool trusted(const Model& m, int hk) { return hk != HK_SEMI || (plain(m) && !m.guessed && !m.degen_past && (m.cls != 'Z' || m.strict)); }
// LPs: without ramping the solver may cycle until its budget is used up
static bool must(const Model& m, int hk, bool hotm) { if (hk == HK_SEMI) return trusted(m, hk); if (hk == HK_ZERO) return plain(m) && !m.guessed && !m.degen_past && !hotm; return plain(m) || !m.degen_past; }
static const double TOL0 = 1e-5, TOL_LP = 1e-3;      // LPs are regularised; without drift correction more digits are lost

static Verdict check_success(const Prog& p, const Trace& t, const Rec& r, const Model& m, const QP& q, uint64_t h, Stats* st) {
	std::string k;
	if (m.far && !p.i("strict") && (!plain(m) || r.q.hk == HK_ZERO)) return Verdict::ok(h);      // no drift correction, or regularised: digits lost on the way back are not recovered
	if (q.truth == T_UNBOUNDED && (!plain(m) || r.o.reg) && !p.i("strict")) return Verdict::ok(h);      // regularised, solved approximately
	if (m.cls == 'Z' && r.q.hk == HK_SEMI && !trusted(m, HK_SEMI)) return Verdict::ok(h);
	if (q.truth != T_SOLVABLE) return Verdict::fail("claimed-solved-infeasible", r.op, fmt("op %d reports success although the QP is %s: %s", r.op, q.truth == T_INFEASIBLE ? "infeasible" : "unbounded", opname(p, r.op, k)), h);
	bool degen = r.q.vk == VK_DEGEN;
	if (m.vdegen && !plain(m)) return Verdict::ok(h);
	if (r.q.hk == HK_SEMI && !trusted(m, HK_SEMI)) return Verdict::ok(h);
	if (m.os && m.degen_past && m.guessed) return Verdict::ok(h);
	if (!r.o.have) return Verdict::ok(h);
	if ((int)r.o.x.size() != q.nv || (int)r.o.y.size() != q.nv + q.nc) return Verdict::fail("no-solution", r.op, fmt("op %d reports success but hands out no solution (status %d): %s", r.op, r.o.status, opname(p, r.op, k)), h);
	double TOL = r.q.hk == HK_ZERO && !plain(m) ? TOL_LP : TOL0;
	KKT kk = kkt(q, r.o.x, r.o.y); double sc = data_scale(q);
	if (st) ++st->counts["solutions_checked"];
	if (!(kk.worst() <= TOL * sc)) return Verdict::fail("wrong-success", r.op, fmt("op %d reports success, but stationarity %.3g feasibility %.3g complementarity %.3g signs %.3g (tolerance %.1g): %s", r.op, kk.stat, kk.feas, kk.compl_, kk.sign, TOL * sc, opname(p, r.op, k)), h);
	if (!(std::fabs(kk.obj - r.o.obj) <= TOL * sc * (1 + std::fabs(kk.obj)) + 1e-12 * kk.objmag)) return Verdict::fail("wrong-objective", r.op, fmt("op %d: reported objective %.12g, objective at the reported point %.12g: %s", r.op, r.o.obj, kk.obj, opname(p, r.op, k)), h);
	if (q.unique) for (int i = 0; i < q.nv; ++i) if (!(std::fabs(r.o.x[i] - q.x[i]) <= 1e-2 * sc)) return Verdict::fail("wrong-success", r.op, fmt("op %d: x[%d] = %.10g, the unique solution has %.10g: %s", r.op, i, r.o.x[i], q.x[i], opname(p, r.op, k)), h);
	return Verdict::ok(h);
}

static Verdict check_ws(const Prog& p, const Rec& r, const QP* q, uint64_t h, bool success, bool degen) {
	const Obs& o = r.o; std::string k; const char* on = opname(p, r.op, k);
	int n = o.nv, m = o.nc;
	if ((int)o.bst.size() == n && n > 0) {
		// partition
		std::vector<int> seen(n, 0); for (int i : o.fr) { if (i < 0 || i >= n) return Verdict::fail("partition", r.op, fmt("op %d: free list contains %d: %s", r.op, i, on), h); seen[i] += 1; } for (int i : o.fx) { if (i < 0 || i >= n) return Verdict::fail("partition", r.op, fmt("op %d: fixed list contains %d: %s", r.op, i, on), h); seen[i] += 100; }
		bool any = !o.fr.empty() || !o.fx.empty();
		if (any) for (int i = 0; i < n; ++i) {
			if (seen[i] != 1 && seen[i] != 100) return Verdict::fail("partition", r.op, fmt("op %d: bound %d is listed %d times free and %d times fixed: %s", r.op, i, seen[i] % 100, seen[i] / 100, on), h);
			if ((seen[i] == 1) != (o.bst[i] == 0)) return Verdict::fail("partition", r.op, fmt("op %d: bound %d listed as %s but its status is %d: %s", r.op, i, seen[i] == 1 ? "free" : "fixed", o.bst[i], on), h);
			double w = o.bst[i] == -1 ? -1 : o.bst[i] == 1 ? 1 : 0; if ((int)o.ws.size() == n + m && o.ws[i] != w) return Verdict::fail("partition", r.op, fmt("op %d: working set entry %d is %g, bound status is %d: %s", r.op, i, o.ws[i], o.bst[i], on), h);
		}
		if ((int)o.fr.size() != o.nfr || (int)o.fx.size() != o.nfx) return Verdict::fail("counts", r.op, fmt("op %d: %d free and %d fixed variables reported, lists have %d and %d: %s", r.op, o.nfr, o.nfx, (int)o.fr.size(), (int)o.fx.size(), on), h);
	}
	if ((int)o.cst.size() == m && m > 0) {
		std::vector<int> seen(m, 0); for (int i : o.iac) { if (i < 0 || i >= m) return Verdict::fail("partition", r.op, fmt("op %d: inactive list contains %d: %s", r.op, i, on), h); seen[i] += 1; } for (int i : o.ac) { if (i < 0 || i >= m) return Verdict::fail("partition", r.op, fmt("op %d: active list contains %d: %s", r.op, i, on), h); seen[i] += 100; }
		bool any = !o.ac.empty() || !o.iac.empty();
		if (any) for (int i = 0; i < m; ++i) {
			if (seen[i] != 1 && seen[i] != 100) return Verdict::fail("partition", r.op, fmt("op %d: constraint %d is listed %d times inactive and %d times active: %s", r.op, i, seen[i] % 100, seen[i] / 100, on), h);
			if ((seen[i] == 1) != (o.cst[i] == 0)) return Verdict::fail("partition", r.op, fmt("op %d: constraint %d listed as %s but its status is %d: %s", r.op, i, seen[i] == 1 ? "inactive" : "active", o.cst[i], on), h);
			double w = o.cst[i] == -1 ? -1 : o.cst[i] == 1 ? 1 : 0; if ((int)o.ws.size() == n + m && o.ws[n + i] != w) return Verdict::fail("partition", r.op, fmt("op %d: working set entry %d is %g, constraint status is %d: %s", r.op, n + i, o.ws[n + i], o.cst[i], on), h);
		}
		if ((int)o.ac.size() != o.nac || (int)o.iac.size() != o.niac) return Verdict::fail("counts", r.op, fmt("op %d: %d active and %d inactive constraints reported, lists have %d and %d: %s", r.op, o.nac, o.niac, (int)o.ac.size(), (int)o.iac.size(), on), h);
		if (any && !o.fr.empty() + !o.fx.empty() && o.nz != o.nfr - o.nac) return Verdict::fail("counts", r.op, fmt("op %d: null space dimension %d with %d free variables and %d active constraints: %s", r.op, o.nz, o.nfr, o.nac, on), h);
	}
	if (o.incons) return Verdict::fail("inconsistent-answers", r.op, fmt("op %d: %s: %s", r.op, o.incons & 1 ? "the working set of the bounds or constraints alone is not the one of both" : o.incons & 2 ? "the flags of the free variables do not match the status of the bounds" : o.incons & 4 ? "numbers and positions of an index list do not match" : "the numbers of types do not match the types", on), h);
	// multipliers: only when the call handed over a QP and the solver holds a valid iterate of its own
	if (q && (int)o.y.size() == n + m && (o.status == 4 || o.status == 5 || o.status == 2)) {
		double sc = data_scale(*q);
		for (int i = 0; i < n + m; ++i) {
			int s = i < n ? ((int)o.bst.size() == n ? o.bst[i] : 9) : ((int)o.cst.size() == m ? o.cst[i - n] : 9); if (s == 9) continue;
			double y = o.y[i]; if (y != y) return Verdict::fail("multiplier", r.op, fmt("op %d: multiplier %d is not a number: %s", r.op, i, on), h);
			double lo = i < n ? q->lb[i] : q->lbA[i - n], hi = i < n ? q->ub[i] : q->ubA[i - n];
			double big = 1e-6 * sc + 1e-9 * std::fabs(y);
			if (s == 0 && std::fabs(y) > big) return Verdict::fail("multiplier", r.op, fmt("op %d: %s %d is not in the working set but has multiplier %.10g: %s", r.op, i < n ? "bound" : "constraint", i < n ? i : i - n, y, on), h);
			bool eq = hi - lo < 1e-9;
			if (success && !degen && s == -1 && y < -1e-5 * sc && !eq) return Verdict::fail("multiplier-sign", r.op, fmt("op %d: %s %d is active at its lower limit with multiplier %.10g: %s", r.op, i < n ? "bound" : "constraint", i < n ? i : i - n, y, on), h);
			if (success && !degen && s == 1 && y > 1e-5 * sc && !eq) return Verdict::fail("multiplier-sign", r.op, fmt("op %d: %s %d is active at its upper limit with multiplier %.10g: %s", r.op, i < n ? "bound" : "constraint", i < n ? i : i - n, y, on), h);
		}
	}
	if (q && success && (int)o.x.size() == n && (int)o.bst.size() == n) {
		double sc = data_scale(*q);
		for (int i = 0; i < n + m; ++i) {
			int s = i < n ? o.bst[i] : ((int)o.cst.size() == m ? o.cst[i - n] : 0); if (s == 0) continue;
			double v = 0; if (i < n) v = o.x[i]; else for (int j = 0; j < n; ++j) v += q->A[(i - n) * n + j] * o.x[j];
			double lim = i < n ? (s < 0 ? q->lb[i] : q->ub[i]) : (s < 0 ? q->lbA[i - n] : q->ubA[i - n]); if (degen && std::fabs(lim) >= 1e20) continue;   // a far bound: the solution set is unbounded
			if (!(std::fabs(v - lim) <= 1e-5 * sc)) return Verdict::fail("active-not-at-limit", r.op, fmt("op %d: %s %d is in the working set at its %s limit %.10g, value %.10g: %s", r.op, i < n ? "bound" : "constraint", i < n ? i : i - n, s < 0 ? "lower" : "upper", lim, v, on), h);
		}
		if (!degen) for (int i = 0; i < n + m; ++i) {
			int s = i < n ? o.bst[i] : ((int)o.cst.size() == m ? o.cst[i - n] : 9); double lo = i < n ? q->lb[i] : q->lbA[i - n], hi = i < n ? q->ub[i] : q->ubA[i - n];
			if (s == 0 && lo == hi && std::fabs(q->y[i]) > 0.2) return Verdict::fail("equality-inactive", r.op, fmt("op %d: equality %s %d is not in the working set: %s", r.op, i < n ? "bound" : "constraint", i < n ? i : i - n, on), h);
		}
	}
	return Verdict::ok(h);
}

// the equality-constrained QP of the working set reported last, solved for other data
static Verdict check_eqp(const Prog& p, const Rec& r, const Rec& last, uint64_t h, Stats* st) {
	std::string k; const char* on = opname(p, r.op, k); int n = r.q.nv, m = r.q.nc, K = r.iv.empty() ? 0 : (int)r.iv[0]; const Obs& o = last.o;
	if (r.rc != 0) return Verdict::fail("eqp-failed", r.op, fmt("op %d: the subproblem of a working set the solver stopped at is not solved (return value %d): %s", r.op, r.rc, on), h);
	if ((int)r.dv.size() != K * (2 * n + m) || (int)o.bst.size() != n || (int)o.cst.size() != m) return Verdict::ok(h);
	for (int c = 0; c < K; ++c) {
		QPSpec sp = r.q; sp.vseed += c; QP q = make_qp(sp); double sc = data_scale(q); bool far = false; const double* x = &r.dv[(size_t)(c * n)]; const double* y = &r.dv[(size_t)(K * n + c * (n + m))];
		std::vector<double> v(n + m, 0.0); for (int i = 0; i < n + m; ++i) { if (i < n) v[i] = x[i]; else for (int j = 0; j < n; ++j) v[i] += q.A[(i - n) * n + j] * x[j]; }
		double big = 1; for (int i = 0; i < n; ++i) big = std::max(big, std::fabs(x[i])); for (int i = 0; i < n + m; ++i) big = std::max(big, std::fabs(y[i]));
		for (int i = 0; i < n + m; ++i) { int s = i < n ? o.bst[i] : o.cst[i - n]; double lim = i < n ? (s < 0 ? q.lb[i] : q.ub[i]) : (s < 0 ? q.lbA[i - n] : q.ubA[i - n]); if (s && std::fabs(lim) >= 1e12) far = true; }
		if (far) continue;
		double tol = 1e-6 * sc * big; if (st) ++st->counts["eqps_checked"];
		for (int i = 0; i < n + m; ++i) {
			int s = i < n ? o.bst[i] : o.cst[i - n]; double lim = i < n ? (s < 0 ? q.lb[i] : q.ub[i]) : (s < 0 ? q.lbA[i - n] : q.ubA[i - n]);
			if (s && !(std::fabs(v[i] - lim) <= tol)) return Verdict::fail("eqp", r.op, fmt("op %d: right-hand side %d: %s %d is in the working set at its %s limit %.10g, value %.10g: %s", r.op, c, i < n ? "bound" : "constraint", i < n ? i : i - n, s < 0 ? "lower" : "upper", lim, v[i], on), h);
			if (!s && y[i] != 0.0) return Verdict::fail("eqp", r.op, fmt("op %d: right-hand side %d: %s %d is not in the working set but has multiplier %.10g: %s", r.op, c, i < n ? "bound" : "constraint", i < n ? i : i - n, y[i], on), h);
		}
		for (int i = 0; i < n; ++i) {
			double e = q.g[i] - y[i]; for (int j = 0; j < n; ++j) e += q.H[i * n + j] * x[j]; for (int j = 0; j < m; ++j) e -= q.A[j * n + i] * y[n + j];
			if (!(std::fabs(e) <= tol)) return Verdict::fail("eqp", r.op, fmt("op %d: right-hand side %d: entry %d of the gradient of the Lagrangian is %.10g: %s", r.op, c, i, e, on), h);
		}
	}
	return Verdict::ok(h);
}

static bool has_fault(const Op& o) {
	static const char* k[] = {"af", "cf", "lf", "fk", "cap", 0}; for (int i = 0; k[i]; ++i) if (o.has(k[i])) return true;
	return o.i("bad") != 0;
}
// longest and shortest times on the simulated clock
static bool forwards(const std::vector<int64_t>& l) { for (size_t i = 1; i < l.size(); ++i) if (l[i] < l[i - 1]) return false; return true; }

Verdict check_trace(const Prog& p, const Trace& t, int what, Stats* st) {
	Verdict d = died(p, t); if (d.bad) return d;
	uint64_t h = d.hash; std::string k; std::map<int, Model> M; std::map<int, const Rec*> LAST;      // last record of a session with observations
	for (auto& r : t.recs) {
		const Op& o = p.ops[r.op]; Model& m = M[r.sess];
		if (r.name == "new" || r.name == "reset") LAST.erase(r.sess);
		if (r.name == "new") { m = Model(); m.strict = p.i("strict") != 0; m.live = r.cls != 0; m.ob = (int)o.i("ob"); m.os = o.u("os"); m.tweaked = m.os != 0; m.cls = r.cls; continue; }
		if (r.name == "opts") { m.ob = (int)o.i("ob"); m.os = o.u("os"); if (m.os) m.tweaked = true; if (r.o.have) { m.status = r.o.status; } continue; }
		if (r.name == "del") { m.live = false; continue; }
		if (r.name == "copied") { int src = (int)o.i("s"); if (src != r.sess) { if (LAST.count(src)) LAST[r.sess] = LAST[src]; else LAST.erase(r.sess); Model c = M[src]; M[r.sess] = c; } continue; }
		if (r.name == "copy") { if (r.exc == 1 && !r.iv.empty() && M.count((int)r.iv[0])) M[(int)r.iv[0]].tainted = true; continue; }
		if (r.name == "reset") { if (r.exc) m.tainted = true; else if (r.called) { m.tainted = false; m.degen_past = false; m.far = m.vdegen = m.lsf = false; } if (r.o.have) m.status = r.o.status; continue; }
		if (r.name == "obs" && (what & (CK_WS | CK_EQP)) && p.ops[r.op].i("w") == 5 && r.called && r.exc == 0 && r.rc != -999 && LAST.count(r.sess)) { const Rec* l = LAST[r.sess]; if ((l->rc == 0 || l->rc == RC_MAX) && !m.tainted && !m.vdegen && !l->o.reg && !r.faults && (m.cls != 'Z' || (r.q.hk != HK_SEMI && !irreparable(m)))) { Verdict v = check_eqp(p, r, *l, h, st); if (v.bad) return v; } continue; }
		if (r.o.have && r.hasqp) LAST[r.sess] = &r;
		if (!r.hasqp || !r.called) continue;
		bool init = r.name == "init";
		if (st) ++st->counts["solver_calls_judged"];
		if (r.argmod && (what & CK_ARGS)) return Verdict::fail("argument-modified", r.op, fmt("op %d: the caller's %s was changed by the call: %s", r.op, r.argmod == 1 ? "primal guess" : r.argmod == 2 ? "dual guess" : r.argmod == 3 ? "factor guess" : r.argmod == 4 ? "gradient" : r.argmod == 5 ? "bounds" : r.argmod == 6 ? "constraint limits" : "constraint matrix", opname(p, r.op, k)), h);
		if (r.exc == 1) { m.tainted = true; continue; }
		if (init) { m.tainted = false; m.degen_past = false; m.far = m.vdegen = m.lsf = false; m.guessed = false; m.cb = o.i("cb") != 0; }
		{ static const char* gk[] = {"gb", "gc", "xg", "yg", 0}; for (int j = 0; gk[j]; ++j) if (o.has(gk[j])) m.guessed = true; }
		QP q = make_qp(r.q); bool degen = r.q.vk == VK_DEGEN; bool success = r.rc == 0; bool fault = has_fault(o) || r.faults;
		int before = m.status;
		if (r.o.have) { m.status = r.o.status; m.observed = true; }
		if (m.tainted) continue;
		if (degen || r.rc != 0 || (r.q.hk == HK_SEMI && !plain(m))) m.degen_past = true;
		if (degen) m.vdegen = true;
		if (m.cls == 'Z' && r.faults) m.lsf = true;
		if (m.cls == 'Z' && r.o.have && std::fabs(r.o.obj) < 1e20 && std::fabs(r.o.obj) > 1e8) m.far = true;
		bool far = m.far;
		if (o.i("contra")) { if (r.rc == 0 || r.rc == RC_MAX) return Verdict::fail("contradiction-accepted", r.op, fmt("op %d: contradicting initial guesses are accepted (return value %d): %s", r.op, r.rc, opname(p, r.op, k)), h); continue; }
		if (what & CK_BUDGET) {
			if (r.nout > r.nin || r.nout < 0) { if (r.rc != 0 && !r.o.have) {} else return Verdict::fail("budget-exceeded", r.op, fmt("op %d: granted %ld working set recalculations, reports %ld (return value %d): %s", r.op, (long)r.nin, (long)r.nout, r.rc, opname(p, r.op, k)), h); }
			if (r.rc == RC_MAX && r.o.have && r.o.solved) return Verdict::fail("cut-but-solved", r.op, fmt("op %d was cut short and the session claims to be solved: %s", r.op, opname(p, r.op, k)), h);
		}
		if (success && !init && r.name == "hot" && before == 0 && M[r.sess].observed && r.op > 0 && (what & CK_SUCCESS)) { return Verdict::fail("success-uninitialised", r.op, fmt("op %d: hotstart on a session that was never initialised reports success: %s", r.op, opname(p, r.op, k)), h); }
		if (success && (what & CK_SUCCESS) && o.i("bad") == 0) { Verdict v = check_success(p, t, r, m, q, h, st); if (v.bad) return v; }
		if (success && o.i("bad") == 1 && (what & CK_SUCCESS)) return Verdict::fail("bad-argument-accepted", r.op, fmt("op %d: missing gradient accepted: %s", r.op, opname(p, r.op, k)), h);
		if (success && r.faults && o.has("cf") && (what & CK_CB)) return Verdict::fail("callback-failure-lost", r.op, fmt("op %d: the constraint product reported an error, the call reports success: %s", r.op, opname(p, r.op, k)), h);
		if ((what & CK_FLAGS) && r.o.have && o.i("bad") == 0) {
			const Obs& b = r.o;
			if (success != (b.solved != 0)) return Verdict::fail("flags", r.op, fmt("op %d: return value %d, but the session says it is %ssolved (status %d): %s", r.op, r.rc, b.solved ? "" : "not ", b.status, opname(p, r.op, k)), h);
			if (b.solved && (b.infeas || b.unb)) return Verdict::fail("flags", r.op, fmt("op %d: solved and %s at once: %s", r.op, b.infeas ? "infeasible" : "unbounded", opname(p, r.op, k)), h);
			if (b.infeas && b.unb) return Verdict::fail("flags", r.op, fmt("op %d: infeasible and unbounded at once: %s", r.op, opname(p, r.op, k)), h);
			int want = -99; if (success) want = 0; else if (r.rc == RC_MAX) want = 1; else if (rc_inf(r.rc)) want = -2; else if (rc_unb(r.rc)) want = -3; else want = -1;
			if (b.simple != want) return Verdict::fail("simple-status", r.op, fmt("op %d: return value %d gives simple status %d instead of %d: %s", r.op, r.rc, b.simple, want, opname(p, r.op, k)), h);
			if (rc_inf(r.rc) && !b.infeas) return Verdict::fail("flags", r.op, fmt("op %d: return value %d says infeasible, the session does not: %s", r.op, r.rc, opname(p, r.op, k)), h);
			if (rc_unb(r.rc) && !b.unb) return Verdict::fail("flags", r.op, fmt("op %d: return value %d says unbounded, the session does not: %s", r.op, r.rc, opname(p, r.op, k)), h);
		}
		bool ran = r.rc != RC_MAX && !fault;
		bool usable = init || before == 2 || before == 4 || before == 5;
		if ((what & CK_VERDICT) && r.o.have && !fault && trusted(m, r.q.hk) && usable && !(r.q.hk == HK_ZERO && (far || m.tweaked))) {
			if (q.truth == T_SOLVABLE && !degen && !((far || m.vdegen) && !plain(m)) && (r.o.infeas || r.o.unb || rc_inf(r.rc) || rc_unb(r.rc))) return Verdict::fail("false-verdict", r.op, fmt("op %d: the QP has a solution but is reported %s (return value %d): %s", r.op, r.o.infeas || rc_inf(r.rc) ? "infeasible" : "unbounded", r.rc, opname(p, r.op, k)), h);
			if (q.truth == T_INFEASIBLE && ran && !success && r.q.vk != VK_UNBOUNDED && plain(m) && !irreparable(m) && !r.o.infeas) return Verdict::fail("missing-verdict", r.op, fmt("op %d: infeasible QP, solve ended with return value %d and without the infeasible verdict: %s", r.op, r.rc, opname(p, r.op, k)), h);
			if (q.truth == T_UNBOUNDED && ran && !success && plain(m) && !irreparable(m) && !r.o.unb && !r.o.infeas) return Verdict::fail("missing-verdict", r.op, fmt("op %d: unbounded QP, solve ended with return value %d and without a verdict: %s", r.op, r.rc, opname(p, r.op, k)), h);
			if (q.truth == T_UNBOUNDED && r.o.infeas) return Verdict::fail("false-verdict", r.op, fmt("op %d: the QP is feasible and unbounded but is reported infeasible (return value %d): %s", r.op, r.rc, opname(p, r.op, k)), h);
			if (q.truth == T_INFEASIBLE && r.o.unb) return Verdict::fail("false-verdict", r.op, fmt("op %d: the QP is infeasible but is reported unbounded (return value %d): %s", r.op, r.rc, opname(p, r.op, k)), h);
		}
		if (q.truth == T_UNBOUNDED || rc_unb(r.rc)) m.far = true;
		if ((what & CK_MUST) && !success && !fault && r.q.vk == VK_NICE && r.nin >= 300 && must(m, r.q.hk, r.name == "hotm") && !irreparable(m) && usable) {
			bool cut = false;
			if (r.cin >= 0 && !r.cklog.empty()) { int64_t el = 0; for (int64_t v : r.cklog) el = std::max(el, v - r.cklog[0]); cut = 4.0 * el + 100 > 1e6 * r.cin; if (!forwards(r.cklog)) cut = true; }
			if (!cut) return Verdict::fail("failed-solvable", r.op, fmt("op %d: a well-conditioned solvable QP failed with return value %d after %ld recalculations: %s", r.op, r.rc, (long)r.nout, opname(p, r.op, k)), h);
		}
		if ((what & CK_WS) && r.o.have) { Verdict v = check_ws(p, r, r.rc == 0 || r.rc == RC_MAX ? &q : 0, h, success && q.truth == T_SOLVABLE && !((m.vdegen || far) && !plain(m)), degen || (r.q.hk == HK_SEMI && !plain(m))); if (v.bad) return v; }
		if ((what & CK_TIME) && r.cin >= 0 && r.cklog.size() >= 2 && forwards(r.cklog) && !fault) {
			// the call measures its phases one by one; time passing between two phases belongs to none of them
			double lim = 1e6 * r.cin, el = (double)(r.cklog.back() - r.cklog[0]), lost = 0; int64_t t0 = r.cklog[0]; size_t over = 0; std::vector<int64_t> gaps;
			for (size_t i = 1; i < r.cklog.size(); ++i) gaps.push_back(r.cklog[i] - r.cklog[i - 1]);
			std::vector<int64_t> big = gaps; std::sort(big.rbegin(), big.rend()); size_t G = 4; for (size_t i = 0; i < G && i < big.size(); ++i) lost += (double)big[i];
			for (int64_t v : r.cklog) if ((double)(v - t0) - lost > lim + 2) ++over;
			if (st) ++st->counts["time_limits_checked"];
			if (over > 6) return Verdict::fail("limit-ignored", r.op, fmt("op %d: the clock was read %ld times after the limit of %.0f us was used up (%.0f us in the end): %s", r.op, (long)over, lim, el, opname(p, r.op, k)), h);
			if (r.rc == RC_MAX && r.nout < r.nin && el * 3 < lim) return Verdict::fail("stopped-early", r.op, fmt("op %d: stopped as out of time after %.0f of %.0f us: %s", r.op, el, lim, opname(p, r.op, k)), h);
			if ((r.rc == 0 || r.rc == RC_MAX) && r.cout_ >= 0 && (1e6 * r.cout_ > el + 2 || 1e6 * r.cout_ < el - lost - 2)) return Verdict::fail("time-misreported", r.op, fmt("op %d: %.0f us passed on the clock, %.0f us are reported: %s", r.op, el, 1e6 * r.cout_, opname(p, r.op, k)), h);
		}
		for (int64_t v : r.iv) if (v == -77 && (what & CK_CB)) return Verdict::fail("callback-arguments", r.op, fmt("op %d: the constraint product was asked for a constraint that does not exist: %s", r.op, opname(p, r.op, k)), h);
	}
	if ((what & CK_LEAK) && t.leaked) return Verdict::fail("leak", -1, fmt("%ld blocks of memory are left after all sessions are destroyed", (long)t.leaked), h);
	return Verdict::ok(h);
}
} // namespace sim
