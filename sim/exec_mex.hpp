// Calls of the MEX interfaces, and the same calls on objects of the classes (included by exec.cpp).
#pragma once
struct XMat { SymmetricMatrix* H = 0; Matrix* A = 0; std::vector<double> Hd, Ad; std::vector<sparse_int_t> hi, hj, ai, aj; ~XMat() { Sut g; delete H; delete A; } };
struct XSlot { bool live = false, isB = false, tainted = false; int nv = 0, nc = 0, ht = 6; double h = 0; QProblemB* b = 0; SQProblem* s = 0; std::vector<XMat*> mats; };
struct XArg { int cls = MX_DOUBLE; size_t m = 0, n = 0; std::vector<double> v; int sp = 0; bool isS = false; std::string str; std::vector<std::pair<std::string, XArg> > f; bool lone = false; };
static XArg xa(const std::vector<double>& v, size_t m, size_t n) { XArg a; a.v = v; a.m = m; a.n = n; return a; }
static XArg xcol(const std::vector<double>& v) { return xa(v, v.size(), 1); }
static XArg xnone() { return XArg(); }
static XArg xstr(const std::string& s) { XArg a; a.cls = MX_CHAR; a.str = s; a.m = 1; a.n = s.size(); return a; }
static XArg xnum(double d) { return xa(std::vector<double>(1, d), 1, 1); }
static XArg xstruct() { XArg a; a.cls = MX_STRUCT; a.m = a.n = 1; return a; }
static mxArray* xmake(const XArg& a, Rng& r) {
	if (a.cls == MX_STRUCT) { mxArray* s = mx_struct(); for (auto& f : a.f) mx_field(s, f.first, xmake(f.second, r)); return s; }
	if (a.cls == MX_CHAR && !a.str.empty()) return mx_string(a.str);
	if (a.sp && a.cls == MX_DOUBLE) return mx_sparse(a.m, a.n, a.v, a.sp == 2, a.sp == 3 ? 3 : 0);
	return mx_new(a.cls, a.m, a.n, a.v);
}
static std::vector<double> transpose(const std::vector<double>& v, int rows, int cols) { std::vector<double> t((size_t)rows * cols); for (int i = 0; i < rows; ++i) for (int j = 0; j < cols; ++j) t[(size_t)j * rows + i] = v[(size_t)i * cols + j]; return t; }
struct XOpt { XArg a; Options o; int_t n = -1; double t = -1; };
static std::vector<double> xguess(const Op& o, const char* k, const QP& q, bool cons) {
	Rng r(mix(o.u("gs", 1), cons ? 7 : 5)); int n = cons ? q.nc : q.nv, kind = (int)o.i(k); std::vector<double> v((size_t)n, 0.0);
	for (int i = 0; i < n; ++i) v[(size_t)i] = kind == 1 && (int)q.ws.size() == q.nv + q.nc ? q.ws[(size_t)(cons ? q.nv + i : i)] : kind == 4 ? (double)r.range(-1, 1) : kind == 6 ? -1 : kind == 7 ? 1 : 0; return v;
}
struct XCase { std::vector<XArg> in; int nlhs = 1; bool refused = false; };   // refused: has to end with an error, whatever the session
static std::vector<double> xR(const QP& q) {      // Cholesky factor (upper triangular, row major) of the Hessian
	int n = q.nv; std::vector<double> R((size_t)n * n, 0.0); for (int j = 0; j < n; ++j) for (int i = 0; i <= j; ++i) { double s = q.H[(size_t)i * n + j]; for (int k = 0; k < i; ++k) s -= R[(size_t)k * n + i] * R[(size_t)k * n + j]; if (i == j) R[(size_t)i * n + i] = std::sqrt(s > 0 ? s : 1.0); else R[(size_t)i * n + j] = s / R[(size_t)i * n + i]; } return R;
}
// something is wrong with the arguments: kind and place are chosen by the operation; returns false if that cannot be done here
static bool xspoil(const Op& o, char t, XCase& c, bool form2, const std::vector<int>& mats, const std::vector<int>& vecs, int aux) {
	int k = (int)o.i("bad"); uint64_t ba = o.u("ba"); double nan = std::nan(""); Rng r(ba + 17); size_t N = c.in.size(); (void)form2;
	auto pickv = [&](bool nonempty) -> int { std::vector<int> w; for (int i : vecs) if (i < (int)N && (!nonempty || c.in[(size_t)i].m * c.in[(size_t)i].n)) w.push_back(i); return w.empty() ? -1 : w[(size_t)(ba % w.size())]; };
	auto pickm = [&]() -> int { std::vector<int> w; for (int i : mats) if (c.in[(size_t)i].m * c.in[(size_t)i].n) w.push_back(i); return w.empty() ? -1 : w[(size_t)(ba % w.size())]; };
	int mats0 = mats.empty() ? 0 : mats[0]; switch (k) {
		case 1: if (t == 'q') c.in.resize((size_t)(ba % 4)); else c.in.resize((size_t)(1 + ba % 4) == 2 && t == 'c' ? 1 : (size_t)(1 + ba % 4)); return true;
		case 2: while (c.in.size() < (t == 'c' ? 3u : 11u)) c.in.push_back(xnone()); return true;
		case 3: c.nlhs = t == 'c' ? 1 : (ba & 1) ? 0 : 9; return true;
		case 4: if (t == 'q') return false; switch (ba % 5) { case 0: c.in[0] = xstr("x"); break; case 1: c.in[0] = xnum(105); break; case 2: c.in[0] = xnone(); break; case 3: c.in[0] = xstruct(); break; default: c.in[0] = xstr(" "); } return true;
		case 6: { bool mat = r.chance(0.4); int i = mat ? pickm() : pickv(true); if (i < 0) return false; XArg& a = c.in[(size_t)i]; int z = (int)r.range(0, 2);
			if (mat && z == 0 && i != mats[0]) z = 1;                       // fewer or more rows of the constraint matrix may be a different, valid call
			size_t n0 = a.n, m0 = a.m; if (z == 0) { a.m += 1; } else if (z == 1) { a.n += 1; } else { if (mat) { a.n += 2; } else if (a.m == a.n) a.n += 1; else std::swap(a.m, a.n); }
			a.v.resize(a.m * a.n, 1.0); if (i == vecs[0] && ((t == 'q' && a.n != n0) || (t == 'e' && a.m == m0) || !(c.in[(size_t)mats0].m * c.in[(size_t)mats0].n))) return false; return true; }
		case 7: { int i = r.chance(0.3) ? pickm() : pickv(true); if (i < 0 || i == aux) return false; XArg& a = c.in[(size_t)i]; a.v[(size_t)(ba / 7 % (a.m * a.n))] = nan; if (a.sp == 0 && ba % 3 == 0) a.v[a.m * a.n - 1] = nan; return true; }
		case 8: { int i = r.chance(0.5) ? pickm() : vecs[0]; if (i < 0) return false; XArg& a = c.in[(size_t)i]; if (!(a.m * a.n)) return false; a.v[(size_t)(ba / 7 % (a.m * a.n))] = r.chance(0.5) ? INFINITY : -INFINITY; return true; }
		case 9: { static const int cl[] = {MX_INT32, MX_SINGLE, MX_LOGICAL, MX_CHAR, MX_STRUCT}; bool mat = r.chance(0.3); int i = mat ? pickm() : pickv(true); if (i < 0) return false; XArg& a = c.in[(size_t)i]; a.cls = cl[r.range(0, i == aux ? 3 : 4)]; a.sp = 0; if (a.cls == MX_STRUCT) { a.m = a.n = 1; a.f.clear(); } return true; }
		case 10: { int i = pickv(true); if (i < 0) return false; c.in[(size_t)i].sp = 1; return true; }
		case 11: { if (aux < 0 || aux >= (int)N || c.in[(size_t)aux].cls != MX_STRUCT) return false; XArg& s = c.in[(size_t)aux]; std::vector<size_t> w; for (size_t i = 0; i < s.f.size(); ++i) if (s.f[i].second.m * s.f[i].second.n) w.push_back(i); if (w.empty()) return false; size_t fi = w[ba % w.size()]; XArg& a = s.f[fi].second; bool g = s.f[fi].first.compare(0, 7, "guessed") == 0; int z = (int)r.range(0, 4);
			if (z == 0 && g) { a.v[(size_t)(ba / 7 % a.v.size())] = r.chance(0.5) ? 0.5 : r.chance(0.5) ? 2 : nan; return true; }
			if (z <= 1) { a.n += 1; a.v.resize(a.m * a.n, 1.0); return true; } if (z == 2) { a.m += 1; a.v.resize(a.m * a.n, 1.0); return true; }
			if (z == 3) { if (s.f[fi].first == "hessianType") return false; a.sp = 1; return true; }
			a.cls = r.chance(0.5) ? MX_INT32 : MX_LOGICAL; return true; }
		case 14: { if (mats.size() < 2) return false; XArg& a = c.in[(size_t)mats[1]]; if (!a.m) return false; a.n = 0; a.v.clear(); a.sp = 0; return t != 'q'; }
		case 15: { XArg& a = c.in[(size_t)vecs[0]]; a = xnone(); return true; }
	}
	return false;
}
