// Calls of the MEX interfaces, and the same calls on objects of the classes (second part, included by exec.cpp).
#pragma once
// the option set a struct stands for: 29 numbers, the rest stays as it is by default
#define X_OPTS(F) F(enableRamping) F(enableFarBounds) F(enableFlippingBounds) F(enableRegularisation) F(enableFullLITests) F(enableNZCTests) F(enableDriftCorrection) F(enableCholeskyRefactorisation) F(enableEqualities) \
	F(terminationTolerance) F(boundTolerance) F(boundRelaxation) F(epsNum) F(epsDen) F(maxPrimalJump) F(maxDualJump) F(initialRamping) F(finalRamping) F(initialFarBounds) F(growFarBounds) F(initialStatusBounds) \
	F(epsFlipping) F(numRegularisationSteps) F(epsRegularisation) F(numRefinementSteps) F(epsIterRef) F(epsLITests) F(epsNZCTests)
XOpt World::xopt(const Op& o, int plevel) {
	XOpt x; x.a = xstruct(); Options src = make_options((int)o.i("ob"), o.u("os")); x.o.printLevel = PL_LOW; Rng r(mix(o.u("om", 0), 99)); bool odd = o.has("om"); double nan = std::nan("");
	auto put = [&](const char* k, double v) -> bool {
		int z = odd ? (int)r.range(0, 19) : 19;                                // now and then a field is missing, empty, no scalar, or no double
		if (z == 0) return false; XArg a = xnum(v); bool used = true;
		if (z == 1) { a = xnone(); used = false; } else if (z == 2) { a = xa(std::vector<double>(2, v), 1, 2); used = false; } else if (z == 3 && o.i("oi")) { a.cls = MX_INT32; used = false; }
		x.a.f.push_back(std::make_pair(std::string(k), a)); return used; };
	if (o.has("n")) { if (put("maxIter", (double)o.i("n"))) x.n = (int_t)o.i("n"); } else put("maxIter", -1);
	if (o.has("cpu")) { if (put("maxCpuTime", 1e-6 * (double)o.i("cpu"))) x.t = 1e-6 * (double)o.i("cpu"); } else put("maxCpuTime", -1);
	if (put("printLevel", plevel)) x.o.printLevel = (PrintLevel)plevel;
	#define F(k) if (put(#k, (double)src.k)) x.o.k = src.k;
	X_OPTS(F)
	#undef F
	if (odd && r.chance(0.2)) put("enableRampling", 1);
	(void)nan; return x;
}
void World::x_free(XSlot& s) { { Sut g; delete s.b; } s.b = 0; s.s = 0; for (auto* m : s.mats) delete m; s.mats.clear(); s.live = false; }
// an argument that cannot be a handle in use
static XArg xbadhandle(uint64_t ba, double h, double stale, double next) {
	double nan = std::nan("");
	switch (ba % 13) { case 0: return xnum(stale > 0 ? stale : next); case 1: return xnum(next + (double)(ba % 1000)); case 2: return xnum(h + 0.5); case 3: return xnum(-h); case 4: return xnum(nan); case 5: return xnum(h + 4294967296.0); case 6: return xnone(); case 7: return xstr("h");
		case 8: { XArg a = xnum(h); a.cls = MX_INT32; return a; } case 9: return xa(std::vector<double>(2, h), 1, 2); case 10: return xnum(INFINITY); case 11: return xnum(h - 4294967296.0); default: return xnum(0); }
}
void World::x_begin() { if (x_begun) return; x_begun = true; if (!var.mex) return;
	// fixed storage of the interfaces (handle tables) is theirs for good: what is alive after one session has come and gone is the reference
	Clock keep = clk; for (int k = 0; k < 2; ++k) { MexCall c; std::vector<mxArray*> in; std::vector<double> one(1, 1.0); Rng r(1); XArg a[] = {xstr("i"), xnum(1), xnum(0), xnone(), xnone(), xopt(Op("x"), -2).a}; for (auto& e : a) in.push_back(xmake(e, r)); mex_call(mex_entry[2 * k], 1, in, c); if (c.failed || c.out.empty() || !c.out[0]) { tr.heap_error = "no session can be created: " + c.err; return; } double h = c.out[0]->d()[0]; mex_free(c); for (auto* m : in) delete m; in.clear();
		in.push_back(mx_string("c")); in.push_back(xmake(xnum(h), r)); MexCall d; mex_call(mex_entry[2 * k], 0, in, d); for (auto* m : in) delete m; xlast[k] = xstale[k] = h; }
	clk = keep; x_base = heap.live; }
void World::x_end() {
	if (!x_begun) return; if (!var.mex) { for (auto& s : xs) x_free(s.second); xs.clear(); return; }
	Rng r(1); for (int k = 0; k < 2; ++k) for (double h : xlive[k]) { std::vector<mxArray*> in; in.push_back(mx_string("c")); in.push_back(xmake(xnum(h), r)); MexCall c; try { mex_call(mex_entry[2 * k], 0, in, c); } catch (...) {} in_sut = 0; for (auto* m : in) delete m; }
	xlive[0].clear(); xlive[1].clear(); tr.heap_base = x_base; if (mex_arrays && tr.heap_error.empty()) tr.heap_error = "arrays of the engine are left";
}
void World::op_x(const Op& o, Rec& r) {
	x_begin(); clk.now_us = 1000000000000ll + (int64_t)(r.op + 1) * 1000000000ll;   // the same time of day whatever became of the calls before
	 const bool M = var.mex; char t = o.name[2]; int id = (int)o.i("s"); XSlot& S = xs[id]; int lang = (int)prog.i("mi") & 1; r.cls = t; Rng rr(o.u("ba", 3));
	if (M && S.tainted && t != 'c' && t != 'i' && t != 'q') { r.text = "tainted"; return; }
	// ---- the arguments
	XCase c; QP q; bool fB = false; int nv = S.nv ? S.nv : 2, nc = S.nv ? S.nc : 1, aux = -1, K = (int)o.i("k", 1); XOpt X; bool withopt = o.has("ol") && o.i("ol") == 2; X = xopt(o, var.plevel); if (!withopt) { X.o = Options(); X.o.printLevel = PL_LOW; X.n = -1; X.t = -1; }
	if (t == 'i' || t == 'q') { nv = (int)o.i("nv", 2); nc = (int)o.i("nc"); fB = o.s("c", "Q") == "B"; if (fB) nc = 0; } else if (t == 'h') fB = o.s("c", S.isB ? "B" : "Q") == "B";
	std::vector<QP> more; bool needH = t == 'i' || t == 'm' || t == 'q', he = o.i("he") != 0; double hv = S.live ? S.h : xlast[lang] + 1000; int ht = 6; std::vector<double> x0, gB, gC, R; bool hasx0 = false, hasB = false, hasC = false, hasR = false;
	if (t != 'c') {
		QPSpec sp = spec_of(o, nv, nc); q = make_qp(sp); if (!q.ok) { sp.vk = VK_NICE; q = make_qp(sp); } if (!q.ok) { r.text = "skipped"; return; } r.q = sp; more.push_back(q);
		for (int i = 1; i < K; ++i) { QPSpec s2 = sp; s2.vseed = mix(sp.vseed, (uint64_t)i); if (t == 'q') s2.vk = (o.u("badmask") >> i) & 1 ? sp.vk : VK_NICE; QP q2 = make_qp(s2); if (!q2.ok) q2 = q; more.push_back(q2); }
	}
	int nb = (int)o.i("nb"); auto cols = [&](std::vector<double> QP::*f, int rows) { XArg a; a.m = (size_t)rows; a.n = (size_t)K; for (auto& e : more) a.v.insert(a.v.end(), (e.*f).begin(), (e.*f).end()); return a; };
	auto lim = [&](std::vector<double> QP::*f, int rows, int bit, double inf) { if (nb & bit) { bool a = true; for (auto& e : more) a = a && all(e.*f, inf); if (a) return xnone(); } if (!rows) return xnone(); XArg a = cols(f, rows); if (o.i("inf")) for (auto& v : a.v) if (v >= INF) v = INFINITY; else if (v <= -INF) v = -INFINITY; return a; };
	std::vector<int> mats, vecs; int mH = (int)o.i("mH"), mA = (int)o.i("mA"); XArg aH, aA;
	if (needH) { if (!he) { aH = xa(q.H, (size_t)nv, (size_t)nv); aH.sp = mH; } aA = xa(transpose(q.A, nc, nv), (size_t)nc, (size_t)nv); aA.sp = nc ? mA : 0; if (!nc && o.i("a0")) aA = xnone(); }
	std::vector<XArg>& in = c.in; if (t != 'q') in.push_back(xstr(std::string(1, o.i("up") ? (char)(t - 32) : t)));
	bool badh = o.i("bad") == 5 && t != 'i' && t != 'q';
	if (t != 'i' && t != 'q') in.push_back(badh ? xbadhandle(o.u("ba"), S.live ? S.h : 1, xstale[lang], xlast[lang] + 1) : xnum(hv));
	if (t == 'i' || t == 'q') {
		if (!he) mats.push_back((int)in.size()); else mats.push_back((int)in.size()); in.push_back(aH); vecs.push_back((int)in.size()); in.push_back(cols(&QP::g, nv)); if (!fB) { mats.push_back((int)in.size()); in.push_back(aA); }
		vecs.push_back((int)in.size()); in.push_back(lim(&QP::lb, nv, 1, -INF)); vecs.push_back((int)in.size()); in.push_back(lim(&QP::ub, nv, 2, INF));
		if (!fB) { vecs.push_back((int)in.size()); in.push_back(lim(&QP::lbA, nc, 4, -INF)); vecs.push_back((int)in.size()); in.push_back(lim(&QP::ubA, nc, 8, INF)); }
		int ax = (int)o.i("ax"); if (o.i("ol") == 2) in.push_back(X.a); else if (o.i("ol") == 1 || ax) in.push_back(xnone());
		if (o.has("xg")) { hasx0 = true; x0 = q.truth == T_SOLVABLE && (int)q.x.size() == nv ? q.x : std::vector<double>((size_t)nv, 0.25); if (o.i("xg") == 2) for (auto& v : x0) v += rr.uni(-1, 1); }
		if (ax == 1) { if (hasx0) { aux = (int)in.size(); vecs.push_back(aux); in.push_back(xcol(x0)); } else in.push_back(xnone()); }
		if (ax == 2) {
			XArg a = xstruct(); aux = (int)in.size(); int miss = (int)o.i("am"); ht = (int)o.i("ht", 6); auto add = [&](int bit, const char* k, const XArg& v) { if (!(miss & bit)) a.f.push_back(std::make_pair(std::string(k), v)); };
			if (o.has("ht")) add(1, "hessianType", xnum(ht)); else add(1, "hessianType", xnone()); if ((miss & 1) || !o.has("ht")) ht = 6;
			add(2, "x0", hasx0 ? xcol(x0) : xnone()); if (miss & 2) hasx0 = false;
			if (o.has("gb")) { gB = xguess(o, "gb", q, false); hasB = !(miss & 4); } add(4, "guessedWorkingSetB", o.has("gb") ? xcol(gB) : xnone());
			if (o.has("gc") && nc) { gC = xguess(o, "gc", q, true); hasC = !(miss & 8); } add(8, "guessedWorkingSetC", o.has("gc") && nc ? xcol(gC) : xnone());
			if (o.has("R") && (q.hk == HK_POSDEF || q.hk == HK_DIAG || q.hk == HK_IDENT)) { R = xR(q); hasR = !(miss & 16); add(16, "R", xa(transpose(R, nv, nv), (size_t)nv, (size_t)nv)); } else add(16, "R", xnone());
			in.push_back(a);
		} else if (ax != 1) hasx0 = false;
		c.nlhs = (int)o.i("nl", t == 'i' ? 7 : 6);
	} else if (t == 'h') {
		vecs.push_back(2); in.push_back(cols(&QP::g, nv)); vecs.push_back(3); in.push_back(lim(&QP::lb, nv, 1, -INF)); vecs.push_back(4); in.push_back(lim(&QP::ub, nv, 2, INF));
		if (!fB) { vecs.push_back(5); in.push_back(lim(&QP::lbA, nc, 4, -INF)); vecs.push_back(6); in.push_back(lim(&QP::ubA, nc, 8, INF)); }
		if (o.i("ol") == 2) in.push_back(X.a); else if (o.i("ol") == 1) in.push_back(xnone()); c.nlhs = (int)o.i("nl", 6);
	} else if (t == 'm') {
		mats.push_back(2); in.push_back(aH); vecs.push_back(3); in.push_back(cols(&QP::g, nv)); mats.push_back(4); in.push_back(aA);
		vecs.push_back(5); in.push_back(lim(&QP::lb, nv, 1, -INF)); vecs.push_back(6); in.push_back(lim(&QP::ub, nv, 2, INF)); vecs.push_back(7); in.push_back(lim(&QP::lbA, nc, 4, -INF)); vecs.push_back(8); in.push_back(lim(&QP::ubA, nc, 8, INF));
		if (o.i("ol") == 2) in.push_back(X.a); else if (o.i("ol") == 1) in.push_back(xnone()); c.nlhs = (int)o.i("nl", 6);
	} else if (t == 'e') {
		vecs.push_back(2); in.push_back(cols(&QP::g, nv)); vecs.push_back(3); in.push_back(lim(&QP::lb, nv, 1, -INF)); vecs.push_back(4); in.push_back(lim(&QP::ub, nv, 2, INF)); vecs.push_back(5); in.push_back(lim(&QP::lbA, nc, 4, -INF)); vecs.push_back(6); in.push_back(lim(&QP::ubA, nc, 8, INF));
		if (o.i("ol") == 2) in.push_back(X.a); else if (o.i("ol") == 1) in.push_back(xnone()); c.nlhs = (int)o.i("nl", 4);
	} else c.nlhs = 0;
	if (badh) c.refused = true; else if (o.has("bad") && o.i("bad") != 5) { if (xspoil(o, t, c, !fB, mats, vecs, aux)) c.refused = true; else { r.text = "skipped"; return; } }
	bool stale = t != 'i' && t != 'q' && !S.live; if (stale) c.refused = true;
	if (t == 'h' && fB != S.isB) c.refused = true; if ((t == 'm' || t == 'e') && S.isB) c.refused = true;
	r.hasqp = t != 'c' && t != 'e' && !c.refused; r.nin = X.n >= 0 ? X.n : 5 * (nv + nc); r.cin = X.t;
	// ---- the call
	std::vector<double> out; int err = 0, rc = 0; int nl = c.nlhs; bool one = t == 'q'; const int off = t == 'i' ? 1 : 0;
	if (M) {
		std::vector<mxArray*> av; Rng g(1); for (auto& a : in) av.push_back(xmake(a, g)); for (auto* a : av) a->lend(); MexCall mc;
		guarded(o, 0, r, [&] { Out og; mex_call(mex_entry[2 * lang + (one ? 1 : 0)], nl, av, mc); });
		if (heap.fired) {} err = mc.failed; r.text = mc.err;
		for (auto* a : av) { int st = a->state(); if (st && !r.argmod) r.argmod = st == 2 ? 24 : 4; delete a; }
		if (!err && r.exc == 0) {
			size_t want = (size_t)(t == 'c' ? 0 : nl < 1 ? 1 : nl); for (size_t i = 0; i < want; ++i) if (!mc.out[i]) r.argmod = 22;
			if (!r.argmod && t == 'i') { double h = mc.out[0]->d()[0]; if (!(h > xlast[lang])) r.argmod = 20; xlast[lang] = h; xlive[lang].push_back(h); if (!c.refused) { S.h = h; S.live = true; } }
			if (!r.argmod && t != 'c') for (size_t i = (size_t)off; i < want; ++i) { mxArray* a = mc.out[i]; if (t == 'e') { int m = i == 0 ? nv : i == 1 ? nv + nc : i == 2 ? nv : nc; if ((int)a->m != m || (int)a->n != K) { r.argmod = 23; break; } out.insert(out.end(), a->d(), a->d() + (i < 2 ? m * K : m)); }
				else { int j = (int)i - off, P = one ? K : 1; static const int rows[] = {0, 1, 1, 1, 0, 0}; int m = j == 0 ? nv : j == 4 ? nv + nc : rows[j]; if (j < 5) { if ((int)a->m != m || (int)a->n != P) { r.argmod = 23; break; } out.insert(out.end(), a->d(), a->d() + m * P); }
					else { mxArray *b = mxGetField(a, 0, "workingSetB"), *d = mxGetField(a, 0, "workingSetC"), *e = mxGetField(a, 0, "cpuTime"); if (!b || !d || !e || (int)(b->m * b->n) != nv * P || (int)(d->m * d->n) != nc * P || e->m * e->n != (size_t)P) { r.argmod = 23; break; } out.insert(out.end(), b->d(), b->d() + nv * P); out.insert(out.end(), d->d(), d->d() + nc * P); out.push_back(e->d()[0]); } } }
		}
		mex_free(mc); if (mc.bad && !r.argmod) r.argmod = mc.bad;
		if (t == 'c' && !err && S.live && !badh && !c.refused) { auto& l = xlive[lang]; for (size_t i = 0; i < l.size(); ++i) if (l[i] == S.h) { l.erase(l.begin() + (long)i); break; } xstale[lang] = S.h; S.live = false; S.nv = 0; S.tainted = false; }
		if (t == 'i' && S.live && !c.refused && !err && r.exc == 0) { S.nv = nv; S.nc = nc; S.isB = fB; S.tainted = false; }
		if (t == 'c' && !o.has("bad")) { S.tainted = false; S.nv = 0; }
		if (r.exc == 1 && !one) S.tainted = true;
		if (t == 'c' && (badh || stale)) err = 0;                              // whether that is an error or nothing at all is not prescribed
	} else if (c.refused) { err = t == 'c' && (badh || stale) ? 0 : 1; r.called = true; }
	else guarded(o, 0, r, [&] {
		if (t == 'c') { Out g; x_free(S); S.nv = 0; return; }
		XSlot tmp; XSlot& T = one ? tmp : S; XMat* mt = 0;
		auto vec = [&](std::vector<double> QP::*f, int rows, int bit, double inf, int k) -> const double* { static std::vector<double> keep[5]; int ix = bit == 0 ? 0 : bit == 1 ? 1 : bit == 2 ? 2 : bit == 4 ? 3 : 4; Out g; if (bit && !rows) return 0; if (bit && (nb & bit)) { bool a = true; for (auto& e : more) a = a && all(e.*f, inf); if (a) return 0; } keep[ix] = more[(size_t)k].*f; if (bit && o.i("inf")) for (auto& v : keep[ix]) if (v >= INF) v = INFINITY; else if (v <= -INF) v = -INFINITY; return keep[ix].data(); };
		if (needH) {
			{ Out g; mt = new XMat(); T.mats.push_back(mt); }
			if (!he) { if (!mH) { { Out g; mt->Hd = q.H; } mt->H = new SymDenseMat(nv, nv, nv, mt->Hd.data()); } else { { Out g; mxArray* s = mx_sparse((size_t)nv, (size_t)nv, q.H, mH == 2, 0); mt->hj.push_back(0); for (int j = 0; j < nv; ++j) { bool dg = false; for (size_t i = s->jc[j]; i < s->jc[j + 1]; ++i) { if (!dg && (int)s->ir[i] > j) { mt->hi.push_back(j); mt->Hd.push_back(0); dg = true; } if ((int)s->ir[i] == j) dg = true; mt->hi.push_back((sparse_int_t)s->ir[i]); mt->Hd.push_back(s->d()[i]); } if (!dg) { mt->hi.push_back(j); mt->Hd.push_back(0); } mt->hj.push_back((sparse_int_t)mt->hi.size()); } delete s; } SymSparseMat* sm = new SymSparseMat(nv, nv, mt->hi.data(), mt->hj.data(), mt->Hd.data()); sm->createDiagInfo(); mt->H = sm; } }
			if (nc) { if (!mA) { { Out g; mt->Ad = q.A; } mt->A = new DenseMatrix(nc, nv, nv, mt->Ad.data()); } else { { Out g; mxArray* s = mx_sparse((size_t)nc, (size_t)nv, transpose(q.A, nc, nv), mA == 2, 0); for (int j = 0; j <= nv; ++j) mt->aj.push_back((sparse_int_t)s->jc[j]); for (size_t i = 0; i < s->nz; ++i) { mt->ai.push_back((sparse_int_t)s->ir[i]); mt->Ad.push_back(s->d()[i]); } mt->ai.push_back(0); mt->Ad.push_back(0); delete s; } mt->A = new SparseMatrix(nc, nv, mt->ai.data(), mt->aj.data(), mt->Ad.data()); } }
		}
		returnValue v = SUCCESSFUL_RETURN; int_t n = 0; real_t ct = 0; int P = one ? K : 1; std::vector<double> x, f, fl, it, la, wb, wc; { Out g; x.assign((size_t)(nv * P), 0.0); la.assign((size_t)((nv + nc) * P), 0.0); wb.assign((size_t)(nv * P), 0.0); wc.assign((size_t)(nc * P) + 1, 0.0); }
		if (t == 'e') {
			if (withopt) S.s->setOptions(X.o); std::vector<double> cg, cl, cu, ca, cb2, ex, ey; { Out g; for (auto& e : more) { cg.insert(cg.end(), e.g.begin(), e.g.end()); cl.insert(cl.end(), e.lb.begin(), e.lb.end()); cu.insert(cu.end(), e.ub.begin(), e.ub.end()); ca.insert(ca.end(), e.lbA.begin(), e.lbA.end()); cb2.insert(cb2.end(), e.ubA.begin(), e.ubA.end()); } for (auto* p : {&cl, &cu, &ca, &cb2}) if (o.i("inf")) for (auto& z : *p) if (z >= INF) z = INFINITY; else if (z <= -INF) z = -INFINITY; ex.assign((size_t)(nv * K), 0.0); ey.assign((size_t)((nv + nc) * K), 0.0); ca.push_back(0); cb2.push_back(0); }
			S.s->getWorkingSetBounds(wb.data()); if (nc) S.s->getWorkingSetConstraints(wc.data());
			auto e = [&](std::vector<double>& d, std::vector<double> QP::*ff, int bit, double inf, int rows) -> const double* { bool a = (nb & bit) != 0; for (auto& z : more) a = a && all(z.*ff, inf); return a || !rows ? 0 : d.data(); };
			v = S.s->solveCurrentEQP(K, cg.data(), e(cl, &QP::lb, 1, -INF, nv), e(cu, &QP::ub, 2, INF, nv), e(ca, &QP::lbA, 4, -INF, nc), e(cb2, &QP::ubA, 8, INF, nc), ex.data(), ey.data()); rc = v; err = v != SUCCESSFUL_RETURN;
			if (!err) { Out g; out = ex; if (nl > 1) out.insert(out.end(), ey.begin(), ey.end()); if (nl > 2) out.insert(out.end(), wb.begin(), wb.begin() + nv); if (nl > 3) out.insert(out.end(), wc.begin(), wc.begin() + nc); }
			return;
		}
		bool useB = one ? nc == 0 : t == 'i' ? fB : S.isB; std::vector<std::vector<double> > per;
		for (int k = 0; k < P; ++k) {
			n = X.n >= 0 ? X.n : 5 * (nv + nc); ct = X.t >= 0 ? X.t : INFTY; const double *g = vec(&QP::g, nv, 0, 0, k), *lb = vec(&QP::lb, nv, 1, -INF, k), *ub = vec(&QP::ub, nv, 2, INF, k), *la_ = vec(&QP::lbA, nc, 4, -INF, k), *ua = vec(&QP::ubA, nc, 8, INF, k);
			if ((t == 'i' || one) && k == 0) {
				if (!one) { Out og; XMat* keep = mt; S.mats.pop_back(); x_free(S); S.mats.push_back(keep); }
				T.b = useB ? new QProblemB(nv, (HessianType)ht) : 0; if (!useB) { if (one) { T.b = new QProblem(nv, nc, (HessianType)ht); } else { T.b = T.s = new SQProblem(nv, nc, (HessianType)ht); } }
				T.live = true; T.nv = nv; T.nc = nc; T.isB = fB;
				if (!one) T.b->setOptions(X.o); T.b->setOptions(X.o); Bounds bb(nv); Constraints cc(nc); auto st = [](double d) { return d < -0.5 ? ST_LOWER : d > 0.5 ? ST_UPPER : ST_INACTIVE; };
				if (hasB) for (int i = 0; i < nv; ++i) bb.setupBound(i, st(gB[(size_t)i])); if (hasC) for (int i = 0; i < nc; ++i) cc.setupConstraint(i, st(gC[(size_t)i]));
				const double* xx = hasx0 ? x0.data() : 0; const double* rp = hasR ? R.data() : 0;
				if (useB) v = T.b->init(mt->H, g, lb, ub, n, &ct, xx, 0, hasB ? &bb : 0, rp); else v = ((QProblem*)T.b)->init(mt->H, g, mt->A, lb, ub, la_, ua, n, &ct, xx, 0, hasB ? &bb : 0, hasC ? &cc : 0, rp);
			} else if (t == 'm') { T.s->setOptions(X.o); v = T.s->hotstart(mt->H, g, mt->A, lb, ub, la_, ua, n, &ct); rc = v; }
			else { if (!one) T.b->setOptions(X.o); if (useB) v = T.b->hotstart(g, lb, ub, n, &ct); else v = ((QProblem*)T.b)->hotstart(g, lb, ub, la_, ua, n, &ct); }
			T.b->getPrimalSolution(&x[(size_t)(k * nv)]); { Out og; f.push_back(0); fl.push_back(0); it.push_back((double)n); } f.back() = T.b->getObjVal(); fl.back() = (double)getSimpleStatus(v); T.b->getDualSolution(&la[(size_t)(k * (nv + nc))]); if (useB) T.b->getWorkingSetBounds(&wb[(size_t)(k * nv)]); else { ((QProblem*)T.b)->getWorkingSetBounds(&wb[(size_t)(k * nv)]); if (nc) ((QProblem*)T.b)->getWorkingSetConstraints(&wc[(size_t)(k * nc)]); }
		}
		{ Out g; int e = 0; auto put = [&](const std::vector<double>& d, size_t m) { if (e++ < nl - off) out.insert(out.end(), d.begin(), d.begin() + (long)m); }; put(x, x.size()); put(f, f.size()); put(fl, fl.size()); put(it, it.size()); put(la, la.size()); if (nl - off > 5) { out.insert(out.end(), wb.begin(), wb.end()); out.insert(out.end(), wc.begin(), wc.begin() + nc * P); out.push_back(ct); } if (one) x_free(tmp); r.nout = n; if (v == RET_MAX_NWSR_REACHED) ++tr.fired[o.has("cpu") && n < r.nin ? F_TIMELIM : F_BUDGET]; }
	});
	r.rc = err; r.dv = out; r.nout = 0; r.iv.push_back(c.refused); r.iv.push_back(t == 'm' && !M ? rc : 0);
}
