// Steps of Simulink blocks and calls of the Scilab gateway, and the same on objects of the classes (second part, included by exec.cpp).
#pragma once
void World::y_free(YSlot& s) { { Sut g; delete s.b; } s.b = 0; for (double* p : s.keep) delete[] p; s.keep.clear(); if (s.blk) { if (s.live) s.blk->terminate(); delete s.blk; s.blk = 0; } s.live = false; }
void World::x_end() {
	for (auto& s : ys) { try { y_free(s.second); } catch (...) { in_sut = 0; } } ys.clear(); if (!var.mex) return;
	for (int f = 8; f <= 10; ++f) { SciCall c; std::vector<SciArg> none; sci_call(f, 1, none, c, var.fill); }
}
void World::op_x(const Op& o, Rec& r) {
	const bool M = var.mex; char t = o.name[2]; r.cls = t; const bool sci = t == 'I' || t == 'H' || t == 'C' || t == 'Q'; char cls = o.s("c", "Q")[0]; if (t == 'Q') cls = 'Q'; int kind = cls == 'B' ? 0 : cls == 'Q' ? 1 : 2;
	int id = sci ? 100 + kind : (int)o.i("s"); r.sess = t == 'Q' ? 99 : id; YSlot& S = ys[r.sess]; if (!sci && t != 'K') { if (!S.live) { r.text = "skipped"; return; } cls = S.cls; kind = cls == 'B' ? 0 : cls == 'Q' ? 1 : 2; }
	int nv = S.live ? S.nv : 2, nc = S.live ? S.nc : 1; if (t == 'K' || t == 'I' || t == 'Q') { nv = (int)o.i("nv", 2); nc = (int)o.i("nc"); if (cls == 'B') nc = 0; }
	QP q; if (t != 'T' && t != 'C') { QPSpec sp = spec_of(o, nv, nc); q = make_qp(sp); if (!q.ok) { sp.vk = VK_NICE; q = make_qp(sp); } if (!q.ok) { r.text = "skipped"; return; } r.q = sp; }
	if (S.tainted && M && t != 'K' && t != 'I' && t != 'Q' && t != 'T' && t != 'C') { r.text = "tainted"; r.iv.assign(2, 0); return; }
	const int nb = sci || t == 'K' ? (int)o.i("nb") : S.nb; bool inf = o.i("inf") != 0, he = t == 'K' ? o.i("he") != 0 && !o.has("bad") : S.he; int bad = (int)o.i("bad"); uint64_t ba = o.u("ba"); bool refused = false;
	auto lim = [&](std::vector<double> v, int bit) { if (nb & bit) return std::vector<double>(); if (inf) for (auto& d : v) if (d >= INF) d = INFINITY; else if (d <= -INF) d = -INFINITY; return v; };
	std::vector<double> lb = lim(q.lb, 1), ub = lim(q.ub, 2), la = lim(q.lbA, 4), ua = lim(q.ubA, 8), out; int err = 0; int nl = (int)o.i("nl", 5);
	auto cptr = [](const std::vector<double>& v) { return v.empty() ? (const double*)0 : v.data(); };
	// ---- reference: the object of the class a block or a session stands for
	auto refobj = [&](char c) -> QProblemB* { Sut g; QProblemB* b = c == 'B' ? new QProblemB(nv, HST_UNKNOWN) : c == 'Q' ? (QProblemB*)new QProblem(nv, nc, HST_UNKNOWN) : (QProblemB*)new SQProblem(nv, nc, HST_UNKNOWN); return b; };
	auto rinit = [&](QProblemB* b, char c, double* H, double* A, int_t& n) { Sut g; return c == 'B' ? b->init(H, q.g.data(), cptr(lb), cptr(ub), n, 0) : ((QProblem*)b)->init(H, q.g.data(), A, cptr(lb), cptr(ub), cptr(la), cptr(ua), n, 0); };
	auto rhot = [&](QProblemB* b, char c, double* H, double* A, int_t& n) { Sut g; return c == 'B' ? b->hotstart(q.g.data(), cptr(lb), cptr(ub), n, 0) : c == 'Q' ? ((QProblem*)b)->hotstart(q.g.data(), cptr(lb), cptr(ub), cptr(la), cptr(ua), n, 0) : ((SQProblem*)b)->hotstart(H, q.g.data(), A, cptr(lb), cptr(ub), cptr(la), cptr(ua), n, 0); };
	if (t == 'K') {
		y_free(S); S.tainted = false; S.cls = cls; S.nv = nv; S.nc = nc; S.nb = nb; S.he = he;
		int hr = nv, hc = nv, ar = nc, ac = nv, wg = nv, wA = nv * nc, wH = nv * nv; int w[4] = {nb & 1 ? 0 : nv, nb & 2 ? 0 : nv, nb & 4 || !nc ? 0 : nc, nb & 8 || !nc ? 0 : nc};
		bool m = cls != 'B'; switch (bad) {
			case 1: wg += ba & 1 ? 1 : -1; refused = true; break;
			case 2: if (cls == 'S') { wH += ba & 1 ? 1 : -1; } else if (ba & 1) hr += 1; else hc -= 1; refused = true; break;
			case 3: if (cls == 'S') { wH = nv; } else { hr = 1; hc = nv * nv; } refused = true; break;
			case 4: w[0] = nv + (ba & 1 ? 1 : -1); refused = w[0] > 0; if (nb & 2 && ba & 2) w[1] = 0; break;
			case 5: w[1] = nv + (ba & 1 ? 1 : -1); if (ba & 2) w[0] = 0; refused = w[1] > 0; break;
			case 6: if (m && nc) { w[2] = nc + (ba & 1 ? 1 : -1); refused = w[2] > 0; } break;
			case 7: if (m && nc) { w[3] = nc + (ba & 1 ? 1 : -1); if (ba & 2) w[2] = 0; refused = w[3] > 0; } break;
			case 8: if (m && nc) { if (cls == 'S') wA += 1; else if (ba & 1) ac += 1; else ac -= 1; refused = true; } break;
		}
		if (bad && !refused) { r.text = "skipped"; S.live = false; return; }
		if (nv < 2) refused = true; if (he && cls != 'S') refused = true; r.called = true;
		if (M) {
			std::vector<mxArray*> par; std::vector<int> wd; auto fit = [](std::vector<double> v, size_t n) { v.resize(n, 1.0); return v; };
			if (cls == 'S') wd.push_back(he ? 0 : wH); else par.push_back(he ? mx_new(MX_DOUBLE, 0, 0, std::vector<double>()) : mx_new(MX_DOUBLE, (size_t)hr, (size_t)hc, fit(ytr(q.H, nv, nv), (size_t)(hr * hc))));
			wd.push_back(wg); if (cls == 'Q') par.push_back(mx_new(MX_DOUBLE, (size_t)ar, (size_t)(ar ? ac : o.i("a0") ? 0 : ac), fit(ytr(q.A, nc, nv), (size_t)(ar * ac)))); if (cls == 'S') wd.push_back(wA);
			for (int i = 0; i < (m ? 4 : 2); ++i) wd.push_back(w[i]);
			S.blk = new Block(); S.live = true; guarded(o, 0, r, [&] { Out g; S.blk->start(kind, par, wd, o.i("sc") != 0, ba + 5); }); err = S.blk->failed; r.text = S.blk->err; int st = S.blk->state(); if (st) r.argmod = st == 2 ? 24 : 4;
			if (err || r.exc) { if (r.exc == 0 || r.exc == 1) S.blk->terminate(); S.live = false; }
			if (!err && refused) { S.blk->terminate(); S.live = false; }
		} else if (refused) err = 1;
		else { guarded(o, 0, r, [&] { Out og; S.b = refobj(cls); { Sut g; Options op; op.setToMPC(); S.b->setOptions(op); S.b->setPrintLevel(PL_LOW); } }); S.live = true; if (cls != 'S') { ykeep(S, q.H); ykeep(S, q.A); } }
	} else if (t == 'S') {
		r.hasqp = true; if (M) {
			std::vector<std::vector<double> > in; if (cls == 'S') in.push_back(ytr(q.H, nv, nv)); in.push_back(q.g); if (cls == 'S') in.push_back(ytr(q.A, nc, nv)); in.push_back(lb); in.push_back(ub); if (cls != 'B') { in.push_back(la); in.push_back(ua); }
			guarded(o, 0, r, [&] { Out g; S.blk->step(in, out); }); err = S.blk->failed; r.text = S.blk->err; int st = S.blk->state(); if (st) r.argmod = st == 2 ? 24 : 4; if (r.exc == 1) S.tainted = true;
		} else guarded(o, 0, r, [&] {
			Out og; double *H = 0, *A = 0; if (cls == 'S') { if (!he) H = ykeep(S, q.H); A = ykeep(S, q.A); } else { H = S.keep[0]; A = S.keep[1]; }
			int_t n = 100; returnValue v; if (S.b->getCount() == 0) v = rinit(S.b, cls, H, A, n); else { v = rhot(S.b, cls, H, A, n); if (v != SUCCESSFUL_RETURN && v != RET_MAX_NWSR_REACHED) { { Sut g; S.b->reset(); } int_t n2 = 100 - n; v = rinit(S.b, cls, H, A, n2); n += n2; } }
			std::vector<double> x((size_t)nv); bool has = false; { Sut g; has = S.b->getPrimalSolution(x.data()) == SUCCESSFUL_RETURN; } for (int i = 0; i < 2; ++i) out.push_back(has ? yclamp(x[(size_t)i]) : ANY); out.push_back(yclamp(S.b->getObjVal())); out.push_back(getSimpleStatus(v)); out.push_back((double)n);
		});
	} else if (t == 'T') { guarded(o, 0, r, [&] { Out g; y_free(S); }); S.tainted = false; }
	else {
		r.hasqp = t != 'C'; int fin = t == 'Q' ? 1 : t == 'I' ? kind == 1 ? 2 : kind == 0 ? 3 : 4 : t == 'H' ? kind == 1 ? 5 : kind == 0 ? 6 : 7 : kind == 1 ? 8 : kind == 0 ? 9 : 10; int n0 = (int)o.i("n", 5 * (nv + nc));
		std::vector<SciArg> in; auto put = [&](int m, int n, const std::vector<double>& v) { SciArg a; a.m = m; a.n = v.empty() ? 0 : n; if (v.empty()) a.m = 0; a.v = v; in.push_back(a); };
		if (t != 'C') {
			bool mat = t == 'I' || t == 'Q' || kind == 2; if (mat) put(nv, nv, ytr(q.H, nv, nv)); if (o.i("row")) put(1, nv, q.g); else put(nv, 1, q.g); if (mat && kind) put(nc, nv, ytr(q.A, nc, nv));
			put(nv, 1, lb); put(nv, 1, ub); if (kind) { put(nc, 1, la); put(nc, 1, ua); } put(1, 1, std::vector<double>(1, (double)n0));
			if (kind && !nc && t != 'H') refused = true;
		}
		if (t == 'H' && !S.live) refused = true;
		if (bad) { refused = true; switch (bad) {
			case 1: if (in.empty() || ba & 1) { SciArg a; a.m = a.n = 1; a.v.assign(1, 1.0); in.push_back(a); } else in.pop_back(); break;
			case 2: nl = 6 + (int)(ba % 3); break;
			case 3: if (in.empty()) { r.text = "skipped"; return; } in[(size_t)(ba % in.size())].str = true; break;
			default: { std::vector<size_t> w; for (size_t i = 0; i < in.size(); ++i) if (in[i].m) w.push_back(i); if (w.empty()) { r.text = "skipped"; return; } size_t k = w[(size_t)(ba % w.size())]; SciArg& a = in[k]; int z = (int)(ba / 11 % 4); bool mat = t == 'I' || t == 'Q' || kind == 2;
				if (mat && kind && k == 2) { if (z & 1 && a.n > 1) a.n -= 1; else a.n += 1; }                       // columns of A: the number of rows is anybody's
				else if (mat && k == 0) { if (z & 1) a.m += 1; else a.n += 1; }
				else if (z == 0 && a.m > 1 && a.n == 1 && k != (mat ? 1u : 0u)) std::swap(a.m, a.n); else if (z == 1 && a.m > 1) a.m -= 1; else if (z == 2 && a.n > 1) a.n -= 1; else if (a.n > 1) a.n += 1; else a.m += 1;
				a.v.resize((size_t)(a.m * a.n), 1.0); }
		} }
		r.called = true; bool one = t == 'Q';
		if (M) {
			SciCall c; guarded(o, 0, r, [&] { Out g; sci_call(fin, t == 'C' ? o.i("nl", 1) > 1 ? 3 : 1 : nl, in, c, var.fill ^ 0x5bd1e995u); }); err = c.failed; r.text = c.err; if (c.overrun && !r.argmod) r.argmod = 24;
			if (!err && !r.exc && t != 'C') { static const int dim[] = {0, 1, 1, 1, 0}; for (size_t i = 0; i < c.out.size(); ++i) { int m = i == 0 ? nv : i == 4 ? nv + nc : dim[i]; if (c.size[i].first != m || c.size[i].second != 1) r.argmod = 23; out.insert(out.end(), c.out[i].begin(), c.out[i].end()); } if ((int)c.out.size() != (nl < 1 ? 1 : nl)) r.argmod = 22; }
			if (!one && r.exc == 1) { S.tainted = true; if (t == 'I') S.live = true, S.nv = nv, S.nc = nc; }
			if (t == 'I' && !err && !r.exc && !refused) { S.live = true; S.tainted = false; S.nv = nv; S.nc = nc; } if (t == 'C' && !err && !r.exc) { S.live = false; S.tainted = false; }
		} else if (refused) err = 1;
		else guarded(o, 0, r, [&] {
			Out og; if (t == 'C') { y_free(S); return; } YSlot tmp; YSlot& T = one ? tmp : S; returnValue v; int_t n = n0;
			if (t == 'I' || one) { if (!one) y_free(S); T.b = refobj(cls); { Sut g; T.b->setPrintLevel(PL_LOW); } T.live = true; T.nv = nv; T.nc = nc; T.cls = cls; double *H = ykeep(T, q.H), *A = ykeep(T, q.A); v = rinit(T.b, cls, H, A, n); }
			else { double *H = 0, *A = 0; if (cls == 'S') { H = ykeep(T, q.H); A = ykeep(T, q.A); } v = rhot(T.b, cls, H, A, n); }
			std::vector<double> x((size_t)nv), y((size_t)(nv + nc)); bool hx, hy; double f; { Sut g; hx = T.b->getPrimalSolution(x.data()) == SUCCESSFUL_RETURN; f = T.b->getObjVal(); hy = T.b->getDualSolution(y.data()) == SUCCESSFUL_RETURN; }
			int e = 0; auto w = [&](const std::vector<double>& d, bool has) { if (e++ < (nl < 1 ? 1 : nl)) for (double z : d) out.push_back(has ? z : ANY); }; w(x, hx); w(std::vector<double>(1, f), true); w(std::vector<double>(1, (double)getSimpleStatus(v)), true); w(std::vector<double>(1, (double)n), true); w(y, hy);
			if (one) y_free(tmp);
		});
	}
	r.rc = err; r.dv = out; r.nout = 0; r.iv.push_back(refused); r.iv.push_back(0);
}
