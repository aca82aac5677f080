// One judge per property: which executions to make of a program, and what their histories must satisfy.
#include <algorithm>
#include <cstdarg>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cmath>
#include <set>
#include "judge.hpp"
namespace sim {
static std::string fmt(const char* f, ...) __attribute__((format(printf, 1, 2)));
static std::string fmt(const char* f, ...) { char b[900]; va_list a; va_start(a, f); vsnprintf(b, sizeof b, f, a); va_end(a); return b; }
static uint64_t both(uint64_t a, uint64_t b) { Hash h; h.add(a); h.add(b); return h.h; }

static Variant base_variant(const Prog& p) {
	Variant v; v.plevel = (int)p.i("pl", 0); if (p.find("fill")) v.fill = p.u("fill"); return v;
}
static Verdict simple(const Prog& p, Stats* st, int what) {
	Variant v = base_variant(p); Trace t = run_isolated(p, v);
	if (st) { st->add(t); st->run(t); }
	return check_trace(p, t, what, st);
}

// ---- C03: limits and clocks.  A second execution without limits: a limit never reached changes nothing.
static Verdict judge_time(const Prog& p, Stats* st) {
	Variant v = base_variant(p); Trace t = run_isolated(p, v); if (st) { st->add(t); st->run(t); }
	Verdict d = check_trace(p, t, CK_SUCCESS | CK_MUST | CK_TIME, st); if (d.bad) return d;
	bool cut = false; for (auto& r : t.recs) if (r.hasqp && r.rc == RC_MAX) cut = true;
	if (cut) return d;
	v.nocpu = true; Trace u = run_isolated(p, v); if (st) { st->add(u); ++st->counts["compared_with_unlimited_execution"]; }
	Verdict d2 = died(p, u); if (d2.bad) return d2;
	uint64_t h = both(t.hash(), u.hash());
	for (size_t i = 0; i < t.recs.size() && i < u.recs.size(); ++i) { std::string e = rec_diff(t.recs[i], u.recs[i], false); if (!e.empty()) return Verdict::fail("limit-changed-result", t.recs[i].op, fmt("op %d: a time limit that was never reached changed the result: %s: %s", t.recs[i].op, e.c_str(), p.ops[t.recs[i].op].str().c_str()), h); }
	return Verdict::ok(h);
}

// ---- C06: every group of sessions alone against all of them interleaved
static Verdict judge_interleave(const Prog& p, Stats* st) {
	Variant v = base_variant(p); v.interleave = true; v.schedseed = p.u("sched", 1); v.switchpct = (int)p.i("pct", 100); Trace t = run_isolated(p, v);
	if (st) { st->add(t); st->run(t); }
	Verdict d = died(p, t); if (d.bad) {   // is it the interleaving that kills it?
		return d; }
	std::map<int, std::vector<const Rec*> > by; for (auto& r : t.recs) by[(int)p.ops[r.op].i("grp", 0)].push_back(&r);
	uint64_t h = t.hash();
	for (auto& g : by) {
		Variant w = base_variant(p); w.only = g.first; Trace u = run_isolated(p, w); if (st) st->add(u); h = both(h, u.hash());
		Verdict e = died(p, u); if (e.bad) return e;
		std::vector<Rec>& a = u.recs;
		for (size_t i = 0; i < std::max(a.size(), g.second.size()); ++i) {
			if (i >= a.size() || i >= g.second.size()) return Verdict::fail("interference", -1, fmt("group %d makes %ld calls alone and %ld interleaved", g.first, (long)a.size(), (long)g.second.size()), h);
			std::string x = rec_diff(*g.second[i], a[i], false); if (x.empty() && g.second[i]->cout_ != a[i].cout_) x = fmt("reported time %.9g instead of %.9g", g.second[i]->cout_, a[i].cout_);
			if (x.empty() && g.second[i]->clkreads != a[i].clkreads) x = fmt("%ld clock reads instead of %ld", (long)g.second[i]->clkreads, (long)a[i].clkreads);
			if (!x.empty()) return Verdict::fail("interference", a[i].op, fmt("op %d of group %d gives another result when other sessions run in between: %s: %s", a[i].op, g.first, x.c_str(), p.ops[a[i].op].str().c_str()), h);
		}
	}
	return Verdict::ok(h);
}

// ---- C07: the life of every session with copies against the same life lived by one session
static Verdict judge_copies(const Prog& p, Stats* st) {
	Variant v = base_variant(p); Trace t = run_isolated(p, v); if (st) { st->add(t); st->run(t); }
	Verdict d = died(p, t); if (d.bad) return d; if (t.leaked) return Verdict::fail("leak", -1, fmt("%ld blocks of memory are left after all sessions are destroyed", (long)t.leaked), t.hash());
	uint64_t h = t.hash();
	struct Life { std::vector<int> ops; bool copied = false; };
	std::map<int, Life> live; std::vector<Life> done; std::map<int, const Rec*> rec, cop, last;
	for (auto& r : t.recs) { if (r.name == "copied") cop[r.op] = &r; else rec[r.op] = &r; }
	for (int i = 0; i < (int)p.ops.size(); ++i) {
		const Op& o = p.ops[i]; int s = (int)o.i("s", -1); const Rec* r = rec.count(i) ? rec[i] : 0;
		if (o.name == "copy") {
			int dd = (int)o.i("d"); if (!live.count(s) || !r || !r->called) continue;
			if (dd != s) { if (live.count(dd)) done.push_back(live[dd]); live[dd] = live[s]; live[dd].copied = true; }
			else live[s].copied = true;
			// the snapshot answers like the original
			const Rec* c = cop.count(i) ? cop[i] : 0; if (c && last.count(s) && last[s] && last[s]->o.have && c->o.have) {
				Obs co = c->o; co.simple = last[s]->o.simple; std::string x = co.diff(last[s]->o); if (st) ++st->counts["snapshots_compared"];
				if (!x.empty()) return Verdict::fail("copy-differs", i, fmt("op %d: the copy answers differently from the original: %s: %s", i, x.c_str(), o.str().c_str()), h);
			}
			if (r->o.have && last.count(s) && last[s] && last[s]->o.have) { Obs co = r->o; co.simple = last[s]->o.simple; std::string x = co.diff(last[s]->o); if (!x.empty()) return Verdict::fail("copy-changes-original", i, fmt("op %d: copying changed the original: %s: %s", i, x.c_str(), o.str().c_str()), h); }
			if (dd != s) last[dd] = c;
			continue;
		}
		if (o.name == "new") { if (live.count(s)) done.push_back(live[s]); live[s] = Life(); live[s].ops.push_back(i); last[s] = 0; if (r && r->o.have) last[s] = r; continue; }
		if (!live.count(s)) continue;
		if (o.name == "del") { done.push_back(live[s]); live.erase(s); last.erase(s); continue; }
		live[s].ops.push_back(i); if (r && r->o.have) last[s] = r;
	}
	for (auto& l : live) done.push_back(l.second);
	for (auto& l : done) {
		if (!l.copied) continue;
		Prog q = p; q.ops.clear(); for (int i : l.ops) { q.ops.push_back(p.ops[i]); q.ops.back().set("s", (int64_t)0); }
		Trace u = run_isolated(q, base_variant(p)); if (st) { st->add(u); ++st->counts["lives_compared"]; } h = both(h, u.hash());
		Verdict e = died(q, u); if (e.bad) return e;
		for (auto& r : u.recs) { int i = l.ops[r.op]; if (!rec.count(i)) continue; std::string x = rec_diff(*rec[i], r, false);
			if (!x.empty()) return Verdict::fail("copy-diverges", i, fmt("op %d: with copies around, the result differs from that of a session that was never copied: %s: %s", i, x.c_str(), p.ops[i].str().c_str()), h); }
	}
	return Verdict::ok(h);
}

// ---- C08: everything up to the marked operation left out
static Verdict judge_reset(const Prog& p, Stats* st) {
	int cut = -1; for (int i = 0; i < (int)p.ops.size(); ++i) if (p.ops[i].i("cutoff")) cut = i;
	Variant v = base_variant(p); Trace t = run_isolated(p, v); if (st) { st->add(t); st->run(t); }
	Verdict d = died(p, t); if (d.bad || cut < 0) return d;
	uint64_t h = t.hash();
	if (p.ops[cut].name != "reset") { int i = cut; while (i < (int)p.ops.size() && (p.ops[i].name == "opts" || p.ops[i].name == "obs")) ++i; if (i >= (int)p.ops.size() || p.ops[i].name != "init") return d; for (auto& r : t.recs) if (r.op == i && !r.called) return d; }
	Prog q = p; q.ops.clear(); std::vector<int> idx; int first = -1; for (int i = 0; i < (int)p.ops.size(); ++i) if (p.ops[i].name == "new") { first = i; }
	if (first < 0 || first > cut) return Verdict::ok(h);
	q.ops.push_back(p.ops[first]); idx.push_back(first);
	for (int i = cut; i < (int)p.ops.size(); ++i) { if (p.ops[i].name == "reset") continue; q.ops.push_back(p.ops[i]); idx.push_back(i); }
	Trace u = run_isolated(q, base_variant(p)); if (st) st->add(u); h = both(h, u.hash());
	Verdict e = died(q, u); if (e.bad) return e;
	std::map<int, const Rec*> rec; for (auto& r : t.recs) rec[r.op] = &r;
	for (auto& r : u.recs) { int i = idx[r.op]; if (i <= first || !rec.count(i)) continue; if (p.ops[i].name != "init" && p.ops[i].name != "hot" && p.ops[i].name != "hotm") continue;
		Rec a = *rec[i]; if (!a.called || !r.called) continue;   // no data has been set since the cut
		if (!a.o.init && !r.o.init) a.o.htype = r.o.htype;   // of no consequence until the next initialisation
		std::string x = rec_diff(a, r, true);
		if (!x.empty()) return Verdict::fail("past-matters", i, fmt("op %d: after %s, the result differs from that of a new session: %s: %s", i, p.ops[cut].name == "reset" ? "a reset" : "initialising again", x.c_str(), p.ops[i].str().c_str()), h);
		if (st) ++st->counts["calls_compared_with_new_session"]; }
	return Verdict::ok(h);
}

// ---- C09: same calls, other surroundings
static Verdict judge_environment(const Prog& p, Stats* st) {
	Variant v; v.fill = p.u("fill0", 0xDDDDDDDDDDDDDDDDull); Trace t = run_isolated(p, v); if (st) { st->add(t); st->run(t); }
	Verdict d = died(p, t); if (d.bad) return d;
	Variant w; w.fill = p.u("fill1", 0); w.plevel = (int)p.i("pl", 0); w.stream = (int)p.i("stream", 0); w.tick = p.i("tick", -1); w.start = p.i("start", -1); w.tickrnd = p.u("rt"); w.quiet = p.i("quiet", 0) != 0;
	Trace u = run_isolated(p, w); if (st) { st->add(u); ++st->fired[F_GARBAGE]; if (w.stream == 1 || w.stream == 3) ++st->fired[F_STREAM]; }
	Verdict e = died(p, u); uint64_t h = both(t.hash(), u.hash()); if (e.bad) return e;
	for (size_t i = 0; i < std::max(t.recs.size(), u.recs.size()); ++i) {
		if (i >= t.recs.size() || i >= u.recs.size()) return Verdict::fail("environment-matters", -1, "the executions make different numbers of calls", h);
		Rec a = t.recs[i], b = u.recs[i]; if (w.quiet && !b.o.have) { a.o = Obs(); a.dv.clear(); b.dv.clear(); }
		a.o.plevel = b.o.plevel = 0;
		std::string x = rec_diff(b, a, false);
		if (!x.empty()) return Verdict::fail("environment-matters", a.op, fmt("op %d: the result depends on memory contents, output or clock (fill %016llx print level %d stream %d%s): %s: %s", a.op, (unsigned long long)w.fill, w.plevel, w.stream, w.quiet ? " unobserved" : "", x.c_str(), p.ops[a.op].str().c_str()), h);
	}
	return Verdict::ok(h);
}

// ---- C13: with and without observations
static Verdict judge_observers(const Prog& p, Stats* st) {
	Variant v = base_variant(p); Trace t = run_isolated(p, v); if (st) { st->add(t); st->run(t); for (auto& r : t.recs) if (r.name == "obs") ++st->counts["observations"]; }
	Verdict d = died(p, t); if (d.bad) return d; if (t.leaked) return Verdict::fail("leak", -1, fmt("%ld blocks of memory are left after all sessions are destroyed", (long)t.leaked), t.hash());
	Variant w = base_variant(p); w.noobsops = true; w.quiet = p.i("quiet", 0) != 0; w.plevel = 0;
	Trace u = run_isolated(p, w); if (st) st->add(u); uint64_t h = both(t.hash(), u.hash());
	Verdict e = died(p, u); if (e.bad) return e;
	size_t j = 0;
	for (auto& r : t.recs) {
		if (r.name == "obs") continue;
		while (j < u.recs.size() && u.recs[j].name == "obs") ++j;
		if (j >= u.recs.size()) return Verdict::fail("observer-matters", r.op, "fewer calls without observations", h);
		Rec a = r, b = u.recs[j++]; if (w.quiet && !b.o.have) { a.o = Obs(); a.dv.clear(); b.dv.clear(); }
		a.o.plevel = b.o.plevel = 0;
		std::string x = rec_diff(a, b, false);
		if (!x.empty()) return Verdict::fail("observer-matters", r.op, fmt("op %d: the result depends on queries made before: %s: %s", r.op, x.c_str(), p.ops[r.op].str().c_str()), h);
	}
	return Verdict::ok(h);
}

// ---- C12: one failing allocation, at any point
static Verdict alloc_run(const Prog& p, Stats* st, const Trace& base, int fop) {
	Variant v = base_variant(p); Trace t = run_isolated(p, v); if (st) { st->add(t); st->run(t); }
	Verdict d = died(p, t); if (d.bad) { d.msg = "with an allocation failing: " + d.msg; return d; }
	uint64_t h = t.hash(); std::map<int, const Rec*> rec; for (auto& r : base.recs) if (r.name != "copied") rec[r.op] = &r;
	const Op& fo = p.ops[fop]; int hit = fo.name == "copy" ? (int)fo.i("d", -1) : (int)fo.i("s", -1);
	for (auto& r : t.recs) {
		if (r.name == "copied" || p.ops[r.op].name == "nop") continue;
		if (r.op == fop) { if (r.faults && !r.exc && r.rc == 0) return Verdict::fail("failure-hidden", r.op, fmt("op %d: an allocation failed, the call reports success: %s", r.op, p.ops[r.op].str().c_str()), h); continue; }
		bool other = r.sess != hit && p.ops[r.op].i("d", -2) != hit;
		bool fresh = p.ops[r.op].i("fresh") != 0;
		if (r.op < fop || other || fresh) { if (!rec.count(r.op)) continue; std::string x = rec_diff(r, *rec[r.op], false); if (!x.empty()) return Verdict::fail(fresh ? "no-recovery" : "other-session-affected", r.op, fmt("op %d, %s: %s: %s", r.op, fresh ? "on a new session after memory is available again" : "on another session", x.c_str(), p.ops[r.op].str().c_str()), h); }
	}
	if (t.leaked && p.i("leaks")) return Verdict::fail("leak", fop, fmt("%ld blocks are left after destruction, an allocation failed in op %d: %s", (long)t.leaked, fop, fo.str().c_str()), h);
	return Verdict::ok(h);
}
static Verdict judge_memory(const Prog& p, Stats* st) {
	int fop = -1; for (int i = 0; i < (int)p.ops.size(); ++i) if (p.ops[i].has("af")) fop = i;
	Prog c = p; for (auto& o : c.ops) { o.erase("af"); o.erase("ap"); }
	Trace base = run_isolated(c, base_variant(p)); if (st) st->add(base);
	Verdict d = died(c, base); if (d.bad) return d;
	if (fop >= 0) return alloc_run(p, st, base, fop);
	// enumerate (or sample) the failing allocation over the operations of the program
	Rng r(mix(p.seed, 77)); int64_t cap = p.i("cap", 40); uint64_t h = base.hash(); int64_t all = 0; std::vector<std::pair<int, int64_t> > pts;
	for (auto& x : base.recs) { if (x.name == "copied" || p.ops[x.op].i("fresh") || !x.called) continue; for (int64_t k = 0; k < x.allocs; ++k) pts.push_back(std::make_pair(x.op, k)); all += x.allocs; }
	if (st) st->counts["allocations_seen"] += all;
	bool every = (int64_t)pts.size() <= cap; if (st && every) ++st->counts["programs_with_every_allocation_failed_once"];
	if (!every) { for (size_t i = 0; i < (size_t)cap; ++i) std::swap(pts[i], pts[(size_t)r.range((int64_t)i, (int64_t)pts.size() - 1)]); pts.resize((size_t)cap); }
	for (auto& x : pts) {
		Prog q = c; q.ops[x.first].set("af", x.second);
		// nothing is promised about using the object hit by the failure, except that it can be destroyed
		const Op& fo = c.ops[x.first]; int64_t hit = fo.name == "copy" ? fo.i("d", -1) : fo.i("s", -1);
		for (size_t j = (size_t)x.first + 1; j < q.ops.size(); ++j) { Op& o = q.ops[j]; if (o.name == "new" && o.i("s", -1) == hit) break; if (o.name != "del" && (o.i("s", -1) == hit || (o.name == "copy" && o.i("d", -1) == hit))) o = Op("nop"); } if (r.chance(0.15)) q.ops[x.first].set("ap", 1);
		Verdict v = alloc_run(q, st, base, x.first); h = both(h, v.hash); if (v.bad) { v.has_refined = true; v.refined = q; return v; }
	}
	return Verdict::ok(h);
}

// ---- C10: data from files
static Verdict judge_files(const Prog& p, Stats* st) {
	Variant v = base_variant(p); Trace t = run_isolated(p, v); if (st) { st->add(t); st->run(t); }
	Verdict d = check_trace(p, t, CK_LEAK | CK_ARGS, st); if (d.bad) return d;
	uint64_t h = t.hash();
	// the same calls with the numbers in memory; calls that failed because of their files are left out
	Prog q = p; q.ops.clear(); std::vector<int> idx; std::map<int, const Rec*> rec; for (auto& r : t.recs) if (r.name != "copied") rec[r.op] = &r;
	std::set<int64_t> dead;                          // sessions whose initialisation failed for lack of data: to be initialised or reset before anything else
	for (int i = 0; i < (int)p.ops.size(); ++i) {
		Op o = p.ops[i]; const Rec* r = rec.count(i) ? rec[i] : 0; int64_t sid = o.i("s", -1);
		if (o.name == "init" || o.name == "reset" || o.name == "new") dead.erase(sid);
		else if (dead.count(sid)) { if (o.name == "hot" || o.name == "hotm") { if (r && r->called && r->rc == 0) return Verdict::fail("damaged-file-solved", i, fmt("op %d: after an initialisation that failed for lack of data, a hotstart reports success: %s", i, o.str().c_str()), h); continue; } }
		if (o.s("via") == "file" && o.has("ff") && r && r->called) {
			int fk = (int)o.i("fk"); bool refused = r->rc != 0 && r->rc != RC_MAX && !rc_inf(r->rc) && !rc_unb(r->rc);
			bool harmless = fk == 3 || fk == 14 || (r->text == "complete" && !(fk == 2 && refused));     // a read error behind the last number may or may not be noticed
			if (!harmless && r->text != "unused") {
				if (r->exc) return Verdict::fail("exception", i, fmt("op %d: unreadable data raises an exception: %s", i, o.str().c_str()), h);
				if (r->rc == 0 || r->rc == RC_MAX || rc_inf(r->rc) || rc_unb(r->rc)) return Verdict::fail("damaged-file-accepted", i, fmt("op %d: file '%s' is damaged (kind %d), the call returns %d: %s", i, o.s("ff").c_str(), fk, r->rc, o.str().c_str()), h);
				if (r->o.have && r->o.solved && o.name == "init") return Verdict::fail("damaged-file-solved", i, fmt("op %d: file '%s' is damaged (kind %d), the session claims to be solved: %s", i, o.s("ff").c_str(), fk, o.str().c_str()), h);
				if (st) ++st->counts["damaged_files_rejected"];
				if (o.name == "init") { Op rs("reset"); rs.set("s", o.i("s")); q.ops.push_back(rs); idx.push_back(-1); dead.insert(sid); }
				continue;
			}
		}
		o.erase("via"); o.erase("ff"); o.erase("fk"); o.erase("fa"); o.erase("fe"); q.ops.push_back(o); idx.push_back(i);
	}
	Trace u = run_isolated(q, base_variant(p)); if (st) st->add(u); h = both(h, u.hash());
	Verdict e = died(q, u); if (e.bad) return e;
	for (auto& r : u.recs) { int i = idx[r.op]; if (i < 0 || !rec.count(i) || p.ops[i].name == "opts" || p.ops[i].name == "obs") continue; if (st) ++st->counts["calls_compared_with_memory"];
		std::string x = rec_diff(*rec[i], r, true);
		if (!x.empty()) return Verdict::fail("file-differs-from-memory", i, fmt("op %d: with data from files, the result differs from that with the same data in memory: %s: %s", i, x.c_str(), p.ops[i].str().c_str()), h); }
	return Verdict::ok(h);
}

// ---- C11: files written
struct MatVar { int rows, cols; std::vector<double> v; };
static bool parse_mat(const std::string& f, std::map<std::string, MatVar>& out, std::vector<std::string>& order) {
	size_t p = 0;
	while (p < f.size()) {
		int32_t h[5]; if (p + sizeof h > f.size()) return false; memcpy(h, f.data() + p, sizeof h); p += sizeof h;
		if (h[0] != 0 || h[1] < 0 || h[2] < 0 || h[3] != 0 || h[4] < 1 || p + (size_t)h[4] > f.size()) return false;
		std::string nm(f.data() + p, (size_t)h[4]); p += (size_t)h[4]; if (nm.back() != 0) return false; nm.pop_back();
		size_t n = (size_t)h[1] * (size_t)h[2]; if (p + n * 8 > f.size()) return false;
		MatVar m; m.rows = h[1]; m.cols = h[2]; m.v.resize(n); for (int j = 0; j < h[2]; ++j) for (int i = 0; i < h[1]; ++i) { memcpy(&m.v[(size_t)i * h[2] + j], f.data() + p, 8); p += 8; }   // stored by columns
		out[nm] = m; order.push_back(nm);
	}
	return true;
}
static std::string mat_differs(const std::map<std::string, MatVar>& f, const char* nm, int rows, int cols, const std::vector<double>& v, double tol) {
	auto it = f.find(nm); if (it == f.end()) return fmt("variable %s is missing", nm);
	if (it->second.rows != rows || it->second.cols != cols) return fmt("variable %s is %d by %d instead of %d by %d", nm, it->second.rows, it->second.cols, rows, cols);
	double big = 1; for (double x : v) if (fabs(x) < 1e20) big = std::max(big, fabs(x));
	for (size_t i = 0; i < v.size(); ++i) { if (fabs(v[i]) >= 1e20) continue; if (!(fabs(it->second.v[i] - v[i]) <= tol * big)) return fmt("element %ld of variable %s is %.17g instead of %.17g", (long)i, nm, it->second.v[i], v[i]); }
	return "";
}
static std::vector<double> todbl(const std::vector<int>& v) { return std::vector<double>(v.begin(), v.end()); }

static Verdict judge_write(const Prog& p, Stats* st) {
	Variant v = base_variant(p); Trace t = run_isolated(p, v); if (st) { st->add(t); st->run(t); }
	Verdict d = check_trace(p, t, CK_LEAK | CK_ARGS, st); if (d.bad) return d;
	uint64_t h = t.hash();
	Prog q = p; for (auto& o : q.ops) if (o.name == "write") { o.erase("fk"); o.erase("fa"); o.erase("cap"); }
	Trace u = run_isolated(q, base_variant(p)); if (st) st->add(u); h = both(h, u.hash());
	Verdict e = died(q, u); if (e.bad) return e;
	if (t.recs.size() != u.recs.size()) return Verdict::fail("write-affects-session", -1, "different numbers of calls with and without write faults", h);
	std::map<int, const Rec*> last, prev;            // most recent solver call of each session; most recent record
	std::map<std::string, std::string> ft, fu;     // what each file holds
	for (size_t i = 0; i < t.recs.size(); ++i) {
		const Rec& a = t.recs[i]; const Rec& b = u.recs[i]; const Op& o = p.ops[a.op]; std::string os = o.str();
		if (a.name == "init" || a.name == "hot" || a.name == "hotm" || a.name == "reset") { last[a.sess] = &u.recs[i]; }
		if (a.name != "write") { std::string x = rec_diff(a, b, false); if (!x.empty()) return Verdict::fail("write-affects-session", a.op, fmt("op %d: the result depends on whether files could be written before: %s: %s", a.op, x.c_str(), os.c_str()), h); if (b.o.have) prev[a.sess] = &u.recs[i]; continue; }
		if (!a.called || a.iv.size() < 2 || b.iv.size() < 2) continue;
		std::string nm = "out" + std::to_string(o.i("slot", 0)); int w = (int)o.i("w"); bool app = o.i("app") != 0 && w < 3;
		std::string oldt = ft.count(nm) ? ft[nm] : "", oldu = fu.count(nm) ? fu[nm] : ""; ft[nm] = a.text == "<none>" ? "" : a.text; fu[nm] = b.text == "<none>" ? "" : b.text;
		if (a.text == "<none>") ft.erase(nm); if (b.text == "<none>") fu.erase(nm);
		// observed state must be untouched by writing
		if (prev.count(a.sess) && a.o.have) { Obs z = prev[a.sess]->o; z.simple = a.o.simple; std::string x = a.o.diff(z); if (!x.empty() && prev[a.sess]->name != "obs") return Verdict::fail("write-affects-session", a.op, fmt("op %d: writing changes the session: %s: %s", a.op, x.c_str(), os.c_str()), h); }
		// 1. without faults: must succeed, and be the data asked for
		bool ready = w < 3 || (b.o.have && b.o.status != 0);
		if (ready && b.rc != 0) return Verdict::fail("write-fails", a.op, fmt("op %d: writing to a working disk returns %d: %s", a.op, b.rc, os.c_str()), h);
		if (!ready && b.rc == 0) return Verdict::fail("write-nothing", a.op, fmt("op %d: nothing to write, reports success: %s", a.op, os.c_str()), h);
		if (b.rc == 0) {
			if (b.text == "<none>" || b.argmod == 20 || (app && b.text.compare(0, oldu.size(), oldu) != 0)) return Verdict::fail("file-wrong", a.op, fmt("op %d: success reported, the file is missing or lost what it held: %s", a.op, os.c_str()), h);
			if (b.cout_ == 0) return Verdict::fail("file-wrong", a.op, fmt("op %d: reading the file back gives something else (return value %ld): %s", a.op, (long)b.nout, os.c_str()), h);
			if (w < 3) {
				size_t pos = app ? oldu.size() : 0, k = 0; const char* c = b.text.c_str() + pos; size_t n = w == 2 ? b.iv.size() - 2 : b.dv.size(); bool good = true; int line = 0, cols = w == 0 ? (int)o.i("mm", 1) : 0;
				for (;;) { char* en; while (isspace((unsigned char)*c)) { if (*c == '\n') ++line; ++c; } if (!*c) break; if (k >= n) { good = false; break; }
					if (cols > 0 && line != (int)k / cols) { good = false; break; }       // one row per line
					if (w == 2) { long long z = strtoll(c, &en, 10); good = z == (long long)b.iv[k + 2]; } else { double z = strtod(c, &en); good = z == b.dv[k]; } if (en == c || !good) { good = false; break; } c = en; ++k; }
				if (!good || k != n) return Verdict::fail("file-wrong", a.op, fmt("op %d: success reported, number %ld of %ld in the file is wrong or missing: %s", a.op, (long)k, (long)n, os.c_str()), h);
				if (st) ++st->counts["files_compared_with_data"];
			} else {
				std::map<std::string, MatVar> m; std::vector<std::string> ord; std::string x; const Rec* l = last.count(a.sess) ? last[a.sess] : 0;
				if (!parse_mat(b.text, m, ord)) return Verdict::fail("file-wrong", a.op, fmt("op %d: success reported, the file is no MAT file: %s", a.op, os.c_str()), h);
				int nv = b.o.nv, nc = b.o.nc;
				if (w == 4) {
					static const char* names[] = {"H", "g", "A", "lb", "ub", "lbA", "ubA"}; for (const char* s : names) if (!m.count(s)) return Verdict::fail("file-wrong", a.op, fmt("op %d: variable %s is missing: %s", a.op, s, os.c_str()), h);
					if (l && l->rc == 0 && l->hasqp && !(l->o.reg && false)) { QP z = make_qp(l->q); if (z.ok) {
						if (x.empty()) x = mat_differs(m, "H", nv, nv, z.H, 1e-5); if (x.empty()) x = mat_differs(m, "g", nv, 1, z.g, 1e-5); if (x.empty()) x = mat_differs(m, "A", nc, nv, z.A, 1e-10);
						if (x.empty()) x = mat_differs(m, "lb", nv, 1, z.lb, 1e-5); if (x.empty()) x = mat_differs(m, "ub", nv, 1, z.ub, 1e-5); if (x.empty()) x = mat_differs(m, "lbA", nc, 1, z.lbA, 1e-5); if (x.empty()) x = mat_differs(m, "ubA", nc, 1, z.ubA, 1e-5);
						if (st) ++st->counts["dumps_compared_with_qp"]; } }
				} else {
					static const char* names[] = {"T", "Q", "Ax", "Ax_l", "Ax_u", "FR_idx", "FX_idx", "AC_idx", "IAC_idx"}; for (const char* s : names) if (!m.count(s)) return Verdict::fail("file-wrong", a.op, fmt("op %d: variable %s is missing: %s", a.op, s, os.c_str()), h);
					const Obs& z = b.o;
					if (x.empty()) x = mat_differs(m, "FR_idx", (int)z.fr.size(), 1, todbl(z.fr), 0); if (x.empty()) x = mat_differs(m, "FX_idx", (int)z.fx.size(), 1, todbl(z.fx), 0);
					if (x.empty()) x = mat_differs(m, "AC_idx", (int)z.ac.size(), 1, todbl(z.ac), 0); if (x.empty()) x = mat_differs(m, "IAC_idx", (int)z.iac.size(), 1, todbl(z.iac), 0);
					if (x.empty() && l && l->rc == 0 && l->hasqp && z.x.size() == (size_t)nv && nc > 0) { QP k = make_qp(l->q); std::vector<double> ax((size_t)nc, 0); for (int r = 0; r < nc; ++r) for (int c = 0; c < nv; ++c) ax[(size_t)r] += k.A[(size_t)r * nv + c] * z.x[(size_t)c]; x = mat_differs(m, "Ax", nc, 1, ax, 1e-5); }
					if (st) ++st->counts["workspace_dumps_compared"];
				}
				if (!x.empty()) return Verdict::fail("file-wrong", a.op, fmt("op %d: success reported, %s: %s", a.op, x.c_str(), os.c_str()), h);
			}
		}
		// 2. with faults: success only if the file is what it would be without
		if (a.rc == 0) {
			std::string want = app ? oldt + (fu.count(nm) ? fu[nm].substr(std::min(fu[nm].size(), oldu.size())) : "") : (fu.count(nm) ? fu[nm] : "");
			if (!ready || a.text != want) return Verdict::fail("write-failure-hidden", a.op, fmt("op %d: success reported, the file holds %ld bytes%s (kind of fault %ld at %ld): %s", a.op, (long)a.text.size(), a.text.size() == want.size() ? ", some of them wrong" : fmt(" instead of %ld", (long)want.size()).c_str(), (long)o.i("fk"), (long)o.i("fa"), os.c_str()), h);
			if (a.cout_ == 0) return Verdict::fail("file-wrong", a.op, fmt("op %d: reading the file back gives something else (return value %ld): %s", a.op, (long)a.nout, os.c_str()), h);
		} else { if (st) ++st->counts["failed_writes_reported"]; if (!o.has("fk") && !o.has("cap") && ready) return Verdict::fail("write-fails", a.op, fmt("op %d: writing without fault returns %d: %s", a.op, a.rc, os.c_str()), h); if (app && a.text != "<none>" && a.text.compare(0, oldt.size(), oldt) != 0) return Verdict::fail("file-wrong", a.op, fmt("op %d: appending destroyed what the file held: %s", a.op, os.c_str()), h); }
	}
	return Verdict::ok(h);
}

// ---- C20: benchmark sequences on disk
static Verdict judge_oqp(const Prog& p, Stats* st) {
	Variant v = base_variant(p); Trace t = run_isolated(p, v); if (st) { st->add(t); st->run(t); }
	Verdict d = died(p, t); uint64_t h = t.hash(); if (d.bad) return d;
	if (t.leaked) return Verdict::fail("leak", -1, fmt("%ld blocks of memory are left", (long)t.leaked), h);
	static const char* fig[] = {"maximum number of recalculations", "average number of recalculations", "maximum CPU time", "average CPU time", "maximum stationarity residual", "maximum feasibility residual", "maximum complementarity residual"};
	for (auto& r : t.recs) {
		const Op& o = p.ops[r.op]; std::string os = o.str(); if (r.name != "oqp" || !r.called) continue;
		if (r.argmod == 30) return Verdict::fail("file-left-open", r.op, fmt("op %d: a file is still open: %s", r.op, os.c_str()), h);
		int fk = (int)o.i("fk"); bool hit = o.has("ff") && r.text.compare(0, 7, "damaged") == 0, maybe = fk == 2 && r.text.compare(0, 8, "complete") == 0;     // an error behind the last number may or may not be noticed
		bool dims = o.has("dx");
		if (hit || dims) {
			if (r.rc == 0 || r.rc == RC_MAX || rc_inf(r.rc) || rc_unb(r.rc)) return Verdict::fail("damaged-file-accepted", r.op, fmt("op %d: file '%s' is damaged (kind %d), the call returns %d: %s", r.op, dims ? "dims.oqp" : o.s("ff").c_str(), fk, r.rc, os.c_str()), h);
			if (!o.i("rd")) for (int i = 4; i < 7; ++i) if (r.dv[i] != -7.25 && r.dv[i] != 0) return Verdict::fail("figures-invented", r.op, fmt("op %d: %s reported although the data cannot be read: %s", r.op, fig[i], os.c_str()), h);
			if (st) ++st->counts["damaged_files_rejected"];
			continue;
		}
		if (maybe && r.rc != 0) continue;
		if (o.i("rd") && o.i("nc") && o.i("nullA")) { if (r.rc == 0) return Verdict::fail("bad-argument-accepted", r.op, fmt("op %d: constraints are read although there is no place for all of them: %s", r.op, os.c_str()), h); continue; }
		if (o.i("rd")) { if (r.rc != 0) return Verdict::fail("file-rejected", r.op, fmt("op %d: intact files are rejected with return value %d: %s", r.op, r.rc, os.c_str()), h); if (r.iv[4] != 1) return Verdict::fail("file-misread", r.op, fmt("op %d: data read differ from those written: %s", r.op, os.c_str()), h); if (st) ++st->counts["benchmarks_read"]; continue; }
		if (r.rc != r.iv[0]) return Verdict::fail("file-differs-from-memory", r.op, fmt("op %d: return value %d from disk, %ld with the same data in memory: %s", r.op, r.rc, (long)r.iv[0], os.c_str()), h);
		bool simple = o.i("simple") != 0;
		for (int i = 0; i < 7; ++i) if (!(r.dv[i] == r.dv[7 + i])) return Verdict::fail("file-differs-from-memory", r.op, fmt("op %d: %s is %.17g from disk, %.17g with the same data in memory: %s", r.op, fig[i], r.dv[i], r.dv[7 + i], os.c_str()), h);
		if (r.rc != r.iv[1]) return Verdict::fail("benchmark-dishonest", r.op, fmt("op %d: the run returns %d, solving the sequence gives %ld: %s", r.op, r.rc, (long)r.iv[1], os.c_str()), h);
		if (r.rc != 0) { if (st) ++st->counts["failed_benchmarks"]; continue; }
		if (st) ++st->counts["benchmarks_compared"];
		for (int i = 0; i < 4; ++i) { if (simple && (i == 1 || i == 3)) continue; if (simple && i == 2 && r.dv[2] == r.dv[16]) continue;
			double a = r.dv[i], b = r.dv[14 + i]; if (!(fabs(a - b) <= 1e-9 * (1 + fabs(b)) + (i == 2 || i == 3 ? 1e-6 : 0))) return Verdict::fail("benchmark-dishonest", r.op, fmt("op %d: %s is reported as %.17g, it was %.17g: %s", r.op, fig[i], a, b, os.c_str()), h); }
		for (int i = 4; i < 7; ++i) if (!(r.dv[i] >= r.dv[14 + i] * (1 - 1e-9) - 1e-9)) return Verdict::fail("benchmark-dishonest", r.op, fmt("op %d: %s is reported as %.6g, a QP of the sequence has %.6g: %s", r.op, fig[i], r.dv[i], r.dv[14 + i], os.c_str()), h);
		if (!o.has("badmask") && r.iv[3] == 0 && o.i("ob") != 1 && o.i("ob") != 3 && !o.has("os")) for (int i = 4; i < 7; ++i) if (r.dv[i] > 1e-4) return Verdict::fail("benchmark-wrong", r.op, fmt("op %d: %s of %.6g for well-conditioned QPs: %s", r.op, fig[i], r.dv[i], os.c_str()), h);
	}
	return Verdict::ok(h);
}

// ---- C18: the C interface against the classes
static Verdict judge_capi(const Prog& p, Stats* st) {
	Variant v = base_variant(p); v.capi = true; v.fill = p.u("fill0", 0xDDDDDDDDDDDDDDDDull); Trace t = run_isolated(p, v); if (st) { st->add(t); st->run(t); }
	Variant w = base_variant(p); w.fill = v.fill; Trace u = run_isolated(p, w); if (st) st->add(u); uint64_t h = both(t.hash(), u.hash());
	Verdict d = died(p, t); if (d.bad) return d; Verdict e = died(p, u); if (e.bad) return e;
	if (t.leaked) return Verdict::fail("leak", -1, fmt("%ld blocks of memory are left after all cleanups", (long)t.leaked), h);
	if (t.recs.size() != u.recs.size()) return Verdict::fail("c-interface-differs", -1, "different numbers of calls", h);
	for (size_t i = 0; i < t.recs.size(); ++i) {
		const Rec &a = t.recs[i], &b = u.recs[i]; std::string os = p.ops[a.op].str();
		if (a.argmod) return Verdict::fail("argument-modified", a.op, fmt("op %d: data of the caller (%d) are modified: %s", a.op, a.argmod, os.c_str()), h);
		std::string x = rec_diff(a, b, false); if (!x.empty()) return Verdict::fail("c-interface-differs", a.op, fmt("op %d: through the C interface the result differs from that of the class: %s (outputs: solution, multipliers, objective, CPU time, status, options): %s", a.op, x.c_str(), os.c_str()), h);
		if (st) { ++st->counts["calls_compared"]; if (a.rc != 0) ++st->counts["refused_calls"]; }
	}
	return Verdict::ok(h);
}

// ---- C19: the MEX interfaces against the classes
static Verdict judge_mex(const Prog& p, Stats* st) {
	Variant v = base_variant(p); v.mex = true; Trace t = run_isolated(p, v); if (st) { st->add(t); st->run(t); }
	Variant w = base_variant(p); Trace u = run_isolated(p, w); if (st) st->add(u); uint64_t h = both(t.hash(), u.hash());
	Verdict d = died(p, t); if (d.bad) return d; Verdict e = died(p, u); if (e.bad) return e;
	if (t.recs.size() != u.recs.size()) return Verdict::fail("mex-differs", -1, "different numbers of calls", h);
	static const char* am[] = {"an array of the caller is modified", "an issued handle is not new", "an array is written past its end", "an output is missing", "an output has the wrong size", "an array of the caller is written past its end"};
	std::set<int> tainted; bool oom = false;
	for (size_t i = 0; i < t.recs.size(); ++i) {
		const Rec &a = t.recs[i], &b = u.recs[i]; std::string os = p.ops[a.op].str();
		if (a.argmod) return Verdict::fail("mex-arrays", a.op, fmt("op %d: %s: %s", a.op, am[a.argmod < 20 ? 0 : a.argmod - 19], os.c_str()), h);
		bool fired = a.exc == 1; if (fired) { oom = true; if (st) ++st->counts["calls_out_of_memory"]; if (a.name != "x_q") tainted.insert(a.sess); continue; }
		if (a.exc) return Verdict::fail("mex-differs", a.op, fmt("op %d: the call ends with exception kind %d: %s", a.op, a.exc, os.c_str()), h);
		if (tainted.count(a.sess) && a.name != "x_q" && !(a.name == "x_i" && !a.iv.empty() && !a.iv[0])) { if (a.name == "x_c" && !p.ops[a.op].has("bad")) tainted.erase(a.sess); continue; }
		if (a.name == "x_i") tainted.erase(a.sess);
		if (a.iv.empty() || b.iv.empty()) { if (a.iv.empty() != b.iv.empty()) return Verdict::fail("mex-differs", a.op, fmt("op %d: done only once: %s", a.op, os.c_str()), h); continue; }
		if (b.iv[0]) { if (st) ++st->counts["malformed_calls"]; if (a.rc != b.rc) return Verdict::fail("mex-accepted", a.op, fmt("op %d: a malformed call is not refused: %s", a.op, os.c_str()), h); continue; }
		if (a.rc) { if (b.rc || (a.name == "x_m" && b.iv[1] != 0)) { if (st) ++st->counts["honest_errors"]; continue; } return Verdict::fail("mex-refused", a.op, fmt("op %d: a valid call ends with the error '%s': %s", a.op, a.text.substr(0, 200).c_str(), os.c_str()), h); }
		if (b.rc) return Verdict::fail("mex-accepted", a.op, fmt("op %d: the failure of the class is not reported: %s", a.op, os.c_str()), h);
		if (a.dv.size() != b.dv.size()) return Verdict::fail("mex-differs", a.op, fmt("op %d: %zu output values instead of %zu: %s", a.op, a.dv.size(), b.dv.size(), os.c_str()), h);
		for (size_t k = 0; k < a.dv.size(); ++k) if (memcmp(&a.dv[k], &b.dv[k], 8) && !(a.dv[k] != a.dv[k] && b.dv[k] != b.dv[k])) return Verdict::fail("mex-differs", a.op, fmt("op %d: output value %zu is %.17g, the class gives %.17g: %s", a.op, k, a.dv[k], b.dv[k], os.c_str()), h);
		if (st) ++st->counts[a.name == "x_c" ? "cleanups" : "calls_compared"];
	}
	if (t.leaked && !oom) return Verdict::fail("leak", -1, fmt("%ld blocks of memory are left after all handles are cleaned up", (long)t.leaked), h);
	return Verdict::ok(h);
}

// Simulink blocks and Scilab functions against objects of the classes, on two kinds of garbage
static Verdict judge_blk(const Prog& p, Stats* st) {
	Variant v = base_variant(p); v.mex = true; Trace t = run_isolated(p, v); if (st) { st->add(t); st->run(t); }
	Variant g = v; g.fill = ~v.fill; Trace z = run_isolated(p, g); if (st) st->add(z);
	Variant w = base_variant(p); Trace u = run_isolated(p, w); if (st) st->add(u); uint64_t h = both(both(t.hash(), z.hash()), u.hash());
	Verdict d = died(p, t); if (d.bad) return d; d = died(p, z); if (d.bad) return d; d = died(p, u); if (d.bad) return d;
	if (t.recs.size() != u.recs.size() || t.recs.size() != z.recs.size()) return Verdict::fail("block-differs", -1, "different numbers of calls", h);
	static const char* am[] = {"an input is modified", "", "", "an output is missing", "an output has the wrong size", "an array is written past its end"};
	std::set<int> tainted; bool oom = false; const double any = 1.2345e300;
	for (size_t i = 0; i < t.recs.size(); ++i) {
		const Rec &a = t.recs[i], &b = u.recs[i], &c = z.recs[i]; std::string os = p.ops[a.op].str(); char k = a.name[2];
		if (a.argmod) return Verdict::fail("block-arrays", a.op, fmt("op %d: %s: %s", a.op, am[a.argmod < 20 ? 0 : a.argmod - 19], os.c_str()), h);
		if (a.exc == 1) { oom = true; if (st) ++st->counts["calls_out_of_memory"]; tainted.insert(a.sess); continue; }
		if (a.exc) return Verdict::fail("block-differs", a.op, fmt("op %d: the call ends with exception kind %d: %s", a.op, a.exc, os.c_str()), h);
		if (k == 'K' || (k == 'I' && !a.iv.empty() && !a.iv[0])) tainted.erase(a.sess); else if (tainted.count(a.sess)) { if (k == 'T' || (k == 'C' && !a.iv.empty() && !a.iv[0])) tainted.erase(a.sess); continue; }
		if (a.faults) { oom = true; if (st) ++st->counts["calls_out_of_memory"]; }
		if (a.iv.empty() || b.iv.empty()) { if (a.iv.empty() != b.iv.empty() && !a.faults && !oom) return Verdict::fail("block-differs", a.op, fmt("op %d: done only once: %s", a.op, os.c_str()), h); continue; }
		if (b.iv[0]) { if (st) ++st->counts["malformed_calls"]; if (a.rc != b.rc) return Verdict::fail("block-accepted", a.op, fmt("op %d: a malformed call is not refused: %s", a.op, os.c_str()), h); continue; }
		if (a.rc) { if (a.faults) { tainted.insert(a.sess); continue; } return Verdict::fail("block-refused", a.op, fmt("op %d: a valid call ends with the error '%s': %s", a.op, a.text.substr(0, 200).c_str(), os.c_str()), h); }
		if (a.dv.size() != b.dv.size() || a.dv.size() != c.dv.size()) return Verdict::fail("block-differs", a.op, fmt("op %d: %zu output values instead of %zu: %s", a.op, a.dv.size(), b.dv.size(), os.c_str()), h);
		auto ne = [](double x, double y) { return memcmp(&x, &y, 8) && !(x != x && y != y); };
		for (size_t j = 0; j < a.dv.size(); ++j) {
			if (b.dv[j] == any) { if (st) ++st->counts["values_without_solution"]; if (ne(a.dv[j], c.dv[j])) return Verdict::fail("block-garbage", a.op, fmt("op %d: without a solution output value %zu is whatever memory held before (%.17g, %.17g): %s", a.op, j, a.dv[j], c.dv[j], os.c_str()), h); continue; }
			if (ne(a.dv[j], b.dv[j])) return Verdict::fail("block-differs", a.op, fmt("op %d: output value %zu is %.17g, the class gives %.17g: %s", a.op, j, a.dv[j], b.dv[j], os.c_str()), h);
			if (ne(a.dv[j], c.dv[j])) return Verdict::fail("block-garbage", a.op, fmt("op %d: output value %zu depends on what memory held before (%.17g, %.17g): %s", a.op, j, a.dv[j], c.dv[j], os.c_str()), h);
		}
		if (st) ++st->counts[k == 'S' ? "block_steps_compared" : k == 'K' ? "blocks_started" : k == 'T' ? "blocks_terminated" : "scilab_calls_compared"];
	}
	if (t.leaked && !oom) return Verdict::fail("leak", -1, fmt("%ld blocks of memory are left after everything is terminated", (long)t.leaked), h);
	return Verdict::ok(h);
}

// ---- C24: the options in force are those handed over
static bool opt_bad(const std::vector<double>& v, size_t i) {
	static const int br = opt_index("boundRelaxation");
	switch (opt_fields[i].kind) { case 1: return v[i] < 0; case 2: return v[i] <= 0; case 3: return v[i] < 1.1; case 4: return v[i] <= v[(size_t)br]; default: return false; }
}
static Verdict judge_options(const Prog& p, Stats* st) {
	Variant v = base_variant(p); v.opts = true; Trace t = run_isolated(p, v); if (st) { st->add(t); st->run(t); } Verdict d = died(p, t); uint64_t h = t.hash(); if (d.bad) return d;
	std::map<int, std::vector<double> > cur; std::map<int, int> zero, soft; std::set<int> out;
	const size_t n = opt_fields.size(), reg = (size_t)opt_index("enableRegularisation"), steps = (size_t)opt_index("numRegularisationSteps"), eps = (size_t)opt_index("epsRegularisation"), far = (size_t)opt_index("initialFarBounds"), br = (size_t)opt_index("boundRelaxation");
	for (auto& r : t.recs) {
		const Op& o = p.ops[r.op]; std::string os = o.str(); int s = r.sess;
		if (r.name == "new") { out.erase(s); cur.erase(s); } 
		if (r.name == "copied") { int from = (int)o.i("s"); if (from != s) { if (cur.count(from)) { std::vector<double> c = cur[from]; cur[s] = c; zero[s] = zero[from]; soft[s] = soft[from]; } else cur.erase(s); if (out.count(from)) out.insert(s); else out.erase(s); } }
		if (r.exc && r.name == "new") { out.insert(s); cur.erase(s); }
		if (out.count(s) || r.opt.empty()) continue;
		if (r.exc && st) ++st->counts["calls_out_of_memory"];
		if (r.argmod >= 40) return Verdict::fail("preset-incomplete", r.op, fmt("op %d: after choosing a preset %s still has its former value: %s", r.op, opt_fields[(size_t)r.argmod - 40].name, os.c_str()), h);
		if (!r.asked.empty()) {
			bool adj = false;
			for (size_t i = 0; i < n; ++i) {
				bool bad = opt_bad(r.asked, i); if (i == far && opt_bad(r.asked, br)) bad = r.asked[i] <= r.opt[br];     // relative to what the other one became
				adj = adj || bad;
				if (!bad && !(r.opt[i] == r.asked[i])) return Verdict::fail("option-changed", r.op, fmt("op %d: %s is %.17g after handing over %.17g: %s", r.op, opt_fields[i].name, r.opt[i], r.asked[i], os.c_str()), h);
				if (bad && opt_bad(r.opt, i)) return Verdict::fail("option-inadmissible", r.op, fmt("op %d: inadmissible %s = %.17g becomes %.17g, which is not admissible: %s", r.op, opt_fields[i].name, r.asked[i], r.opt[i], os.c_str()), h);
				if (bad && st) ++st->counts["inadmissible_values_replaced"];
			}
			if (r.name == "opts") {
				if (adj != (r.iv[0] != 0)) return Verdict::fail("adjustment-unreported", r.op, fmt("op %d: the consistency check returns %ld although %s value was inadmissible: %s", r.op, (long)r.iv[0], adj ? "a" : "no", os.c_str()), h);
				if (r.iv[1] != 0 || !r.iv[2]) return Verdict::fail("repair-incomplete", r.op, fmt("op %d: repaired options are adjusted again: %s", r.op, os.c_str()), h);
				for (size_t i = 0; i < n; ++i) if (!(r.dv[i] == r.opt[i])) return Verdict::fail("option-changed", r.op, fmt("op %d: %s is %.17g, the consistency check alone makes it %.17g: %s", r.op, opt_fields[i].name, r.opt[i], r.dv[i], os.c_str()), h);
			}
			if (st) ++st->counts["option_sets_handed_over"];
			cur[s] = r.opt; zero[s] = soft[s] = 0; continue;
		}
		if (!cur.count(s)) continue;
		const std::vector<double>& c = cur[s];
		if (r.hasqp) { if (r.q.hk == HK_ZERO || o.i("nH")) zero[s] = 1; if (r.q.hk == HK_SEMI || r.q.hk == HK_INDEF) soft[s] = 1; } if (r.o.htype == 0) zero[s] = 1; if (r.o.htype == 4) soft[s] = 1;      // found not to be positive definite
		for (size_t i = 0; i < n; ++i) {
			if (r.opt[i] == c[i]) continue;
			if (zero[s] && ((i == reg && r.opt[reg] == 1) || (i == steps && r.opt[steps] == 1 && c[reg] == 0 && r.opt[reg] == 1))) { if (st) ++st->counts["regularisation_switched_on"]; continue; }
			if (i == eps && (soft[s] || zero[s]) && r.opt[i] > 0) { if (st) ++st->counts["regularisation_grown"]; continue; }
			return Verdict::fail("option-changed", r.op, fmt("op %d (%s): %s is %.17g afterwards, it was %.17g: %s", r.op, rc_name(r.rc), opt_fields[i].name, r.opt[i], c[i], os.c_str()), h);
		}
		if (st) ++st->counts[r.rc == 0 ? "calls_without_effect_on_options" : "failed_calls_without_effect_on_options"];
		cur[s] = r.opt; if (r.exc) { out.insert(s); cur.erase(s); }      // nothing else is said about a session that ran out of memory
	}
	return Verdict::ok(h);
}

Verdict judge(const Prog& p, Stats* st) {
	const std::string& c = p.prop;
	if (c == "C15") return simple(p, st, p.i("wild") ? CK_LEAK | CK_ARGS : CK_SUCCESS | CK_MUST | CK_VERDICT | CK_LEAK | CK_ARGS | CK_EQP);
	if (c == "C01" || c == "C14" || c == "C17") return simple(p, st, CK_SUCCESS | CK_MUST);
	if (c == "C02") return simple(p, st, CK_SUCCESS | CK_MUST | CK_BUDGET);
	if (c == "C03") return judge_time(p, st);
	if (c == "C04") return simple(p, st, CK_SUCCESS | CK_MUST | CK_VERDICT | CK_FLAGS);
	if (c == "C05") return simple(p, st, CK_WS);
	if (c == "C06") return judge_interleave(p, st);
	if (c == "C07") return judge_copies(p, st);
	if (c == "C08") return judge_reset(p, st);
	if (c == "C09") return judge_environment(p, st);
	if (c == "C10") return judge_files(p, st);
	if (c == "C11") return judge_write(p, st);
	if (c == "C12") return judge_memory(p, st);
	if (c == "C13") return judge_observers(p, st);
	if (c == "C18") return judge_capi(p, st);
	if (c == "C19") return judge_mex(p, st);
	if (c == "C26") return judge_blk(p, st);
	if (c == "C24") return judge_options(p, st);
	if (c == "C20") return judge_oqp(p, st);
	if (c == "C16") return simple(p, st, CK_SUCCESS | CK_MUST | CK_CB);
	return simple(p, st, CK_ARGS | CK_LEAK);
}
} // namespace sim
