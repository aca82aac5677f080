// Seeded generation of programs: call histories, and the schedule of faults that hits them.
#include <algorithm>
#include <cstdio>
#include "judge.hpp"

namespace sim {
namespace {
enum { W_CUT = 1, W_BADQP = 2, W_DEGEN = 4, W_GUESS = 8, W_OPTS = 16, W_RESET = 32, W_REINIT = 64, W_BADARG = 128, W_CPU = 256, W_HOTM = 512, W_FILE = 1024, W_CB = 2048, W_WARM = 4096, W_STORE = 8192, W_NEW = 16384, W_TWEAK = 32768, W_SEMI = 65536, W_WILD = 131072 };

struct Ses { int id = 0; char c = 'Q'; int nv = 1, nc = 0, hk = 0, sp = 0, ob = 0, ht = 6; uint64_t os = 0, m = 1, v = 1; bool inited = false, cb = false; int fin = 60, act = 50, eq = 15; int buf = 75, nullH = -1; bool nd = false; };

struct G {
	Rng r; Prog p; int W; bool big; bool small = false, judged = false; double filep = 0.35, cbp = 0.6;
	G(uint64_t seed, const std::string& prop, int w, bool thorough) : r(seed), W(w), big(thorough) { p.prop = prop; p.seed = seed; static const char* jd[] = {"C01", "C02", "C03", "C04", "C05", "C14", "C15", "C16", "C17"}; for (const char* j : jd) if (prop == j) judged = true; }
	Op& add(const char* n, const Ses& s) { p.ops.push_back(Op(n)); p.ops.back().set("s", s.id); return p.ops.back(); }
	int pick_hk() { if ((W & W_WILD) && r.chance(0.08)) return HK_INDEF; int z = (int)r.range(0, 99); if (z < 48) return HK_POSDEF; if (z < 62) return (W & W_SEMI) ? HK_SEMI : HK_POSDEF; if (z < 74) return HK_ZERO; if (z < 86) return HK_IDENT; return HK_DIAG; }
	uint64_t tweak(double pr) { if ((W & W_WILD) && r.chance(0.25)) return (uint64_t)r.range(2000000, 4000000); return (W & W_TWEAK) && r.chance(pr) ? (uint64_t)r.range(1, 1000000) : 0; }
	Ses make(int id, const char* classes) {
		Ses s; s.id = id; std::string c = classes; s.c = c[(size_t)r.range(0, (int64_t)c.size() - 1)];
		int z = (int)r.range(0, 99); int top = big ? 24 : 12;
		s.nv = z < 12 ? 1 : z < 30 ? (int)r.range(2, 3) : z < 80 ? (int)r.range(3, 7) : (int)r.range(7, top);
		z = (int)r.range(0, 99); s.nc = s.c == 'B' ? 0 : z < 8 ? 0 : z < 25 ? (int)r.range(1, 2) : z < 80 ? (int)r.range(2, 8) : (int)r.range(6, top + 6);
		if (small) { s.nv = std::min(s.nv, 4); s.nc = std::min(s.nc, 4); }
		s.hk = pick_hk(); s.sp = r.chance(0.4) ? (int)r.range(20, 70) : 0;
		z = (int)r.range(0, 9); s.ob = z < 5 ? 0 : z < 7 ? 2 : z < 9 ? 1 : 3;
		s.os = tweak(0.35);
		s.m = (uint64_t)r.range(1, 1000000000); s.v = (uint64_t)r.range(1, 1000000000);
		s.fin = r.chance(0.3) ? (int)(r.range(0, 4) * 25) : 60; s.act = r.chance(0.4) ? (int)(r.range(0, 4) * 25) : 50; s.eq = r.chance(0.3) ? (int)r.range(0, 60) : 15;
		s.ht = 6; if (r.chance(0.25)) s.ht = s.hk == HK_POSDEF || s.hk == HK_DIAG ? 2 : s.hk == HK_ZERO ? 0 : s.hk == HK_IDENT ? 1 : 4;
		
		if (s.c == 'Z') { s.buf = r.chance(0.5) ? (int)r.range(1, 5) : 75; if (s.hk == HK_ZERO) s.hk = HK_POSDEF; s.ht = 6; }
		return s;
	}
	void news(const Ses& s) { Op& o = add("new", s); o.set("c", std::string(1, s.c)).set("nv", s.nv).set("nc", s.nc).set("ht", s.ht).set("ob", s.ob); if (s.os) o.set("os", (int64_t)s.os); if (s.nd) o.set("nd", 1); if (s.c == 'Z') o.set("buf", s.buf); }
	int budget() { int z = (int)r.range(0, 9); return z < 2 ? 0 : z < 5 ? (int)r.range(1, 2) : z < 8 ? (int)r.range(1, 6) : (int)r.range(3, 15); }
	void data(Op& o, Ses& s, bool mats) {
		if (mats) { o.set("m", (int64_t)s.m).set("hk", s.hk); if (s.sp) o.set("sp", s.sp); }
		o.set("v", (int64_t)s.v); if (s.fin != 60) o.set("fin", s.fin); if (s.act != 50) o.set("act", s.act); if (s.eq != 15) o.set("eq", s.eq);
		if (r.chance(0.3)) o.set("nb", (int)r.range(1, 15));
		if (mats && r.chance(0.5) && (W & W_STORE)) o.set("st", (int)r.range(1, 3));
		if (mats && (s.hk == HK_ZERO || (s.hk == HK_IDENT && s.ht == 1))) { bool isinit = o.name == "init"; if (isinit ? r.chance(0.3) : s.nullH == s.hk) o.set("nH", 1); }
		if (mats) s.nullH = o.i("nH") ? s.hk : -1;
		if (r.chance(0.1)) o.set("ct", 1);
	}
	// unbounded QPs are only given to sessions whose verdict is judged where the solver does not regularise the Hessian away
	bool unbounded_ok(const Ses& s) const {
		if (judged) return p.prop == "C04" && s.hk == HK_SEMI && s.c != 'B' && s.c != 'Z' && (s.ob == 0 || s.ob == 2) && !s.os;
		return s.hk == HK_SEMI || s.hk == HK_ZERO;
	}
	int vkind(const Ses& s, bool hot) {
		if ((W & W_BADQP) && r.chance(0.22)) { int z = (int)r.range(0, 3); if (z == 0) return VK_INF_BOUNDS; if (z == 1) return s.nc ? VK_INF_CONSTR : VK_INF_BOUNDS; if (z == 2) return unbounded_ok(s) ? VK_UNBOUNDED : s.nc ? VK_INF_CONSTR : VK_INF_BOUNDS; return s.nc ? VK_INF_CONBND : VK_INF_BOUNDS; }
		if ((W & W_DEGEN) && r.chance(0.12)) return VK_DEGEN;
		return VK_NICE; (void)hot;
	}
	void mayguess(Op& o, const Ses& s, bool init) {
		if (init) { static const int kinds[] = {1, 2, 3, 4}; int z = (int)r.range(0, 6);     // 1 x, 2 y, 3 xy, 4 ws, 5 x+ws, 6 xy+ws (consistent by construction), 0 R
			if (z == 0) { if ((s.hk == HK_POSDEF || s.hk == HK_DIAG)) { o.set("R", 1); return; } z = 4; }
			if (z == 1 || z == 3 || z == 5) o.set("xg", kinds[r.range(0, 3)]); if (z == 2 || z == 3) o.set("yg", kinds[r.range(0, 3)]);
			if (z == 4 || z == 5) { o.set("gb", (int)r.range(1, 7)); if (s.c != 'B' && r.chance(0.7)) o.set("gc", (int)r.range(1, 7)); }
			if (z == 6) { o.set("xg", 1).set("yg", 1).set("gb", 1); if (s.c != 'B') o.set("gc", 1); } }
		else { o.set("gb", (int)r.range(1, 7)); if (s.c != 'B' && r.chance(0.7)) o.set("gc", (int)r.range(1, 7)); }
		o.set("gs", r.range(1, 1000000)); o.set("gd", r.range(0, 6));
	}
	void maycpu(Op& o) {
		if (!(W & W_CPU) || !r.chance(0.5)) return;
		o.set("tick", r.chance(0.3) ? 0 : r.range(1, 400)); if (r.chance(0.4)) o.set("rt", r.range(1, 1000000));
		int z = (int)r.range(0, 3); o.set("cpu", z == 0 ? r.range(0, 50) : z == 1 ? r.range(50, 5000) : z == 2 ? r.range(1000, 40000) : 100000000);
		if (r.chance(0.4)) { int k = (int)r.range(1, 3); std::string j; for (int i = 0; i < k; ++i) { if (i) j += ","; j += std::to_string(r.range(0, 30)) + ":" + std::to_string(r.chance(0.5) ? r.range(100, 100000) : -r.range(100, 1000000)); } o.set("cj", j); }
		if (r.chance(0.25)) { int64_t a = r.range(0, 20); o.set("cs", std::to_string(a) + ":" + std::to_string(a + r.range(1, 12))); }
	}
	void init(Ses& s, bool newm = true) {
		if (newm) { s.m = (uint64_t)r.range(1, 1000000000); if (s.ht == 6 && r.chance(0.5) && s.c != 'Z') s.hk = pick_hk(); }
		s.v = (uint64_t)r.range(1, 1000000000);
		Op& o = add("init", s); data(o, s, true); int vk = vkind(s, false); if (vk) o.set("vk", vk);
		if ((W & W_CUT) && r.chance(0.25)) o.set("n", budget());
		if ((W & W_WARM) && r.chance(0.5)) mayguess(o, s, true);
		maycpu(o);
		s.cb = false; if ((W & W_CB) && s.nc && (p.prop != "C07" || s.c == 'Q') && r.chance(cbp)) { o.set("cb", 1); o.erase("st"); s.cb = true; }
		if ((W & W_FILE) && r.chance(filep) && !s.cb) { o.set("via", "file"); o.erase("st"); if (r.chance(0.4)) o.set("fs", r.range(1, 2)); }
		s.inited = true;
	}
	void hot(Ses& s, int vk = -1, bool samedata = false) {
		if (!samedata) { if (r.chance(0.7)) s.v = (uint64_t)r.range(1, 1000000000); if (r.chance(0.1)) { s.fin = (int)(r.range(0, 4) * 25); } }
		Op& o = add("hot", s); data(o, s, false); if (vk < 0) vk = vkind(s, true); if (vk) o.set("vk", vk);
		if ((W & W_CUT) && r.chance(0.3)) o.set("n", budget());
		if ((W & W_GUESS) && r.chance(0.2)) mayguess(o, s, false);
		maycpu(o);
		if ((W & W_FILE) && r.chance(filep)) { o.set("via", "file"); if (r.chance(0.4)) o.set("fs", r.range(1, 2)); }
	}
	void hotm(Ses& s) {
		if (s.c != 'S' && s.c != 'Z') { hot(s); return; }
		if (r.chance(0.85)) s.m = (uint64_t)r.range(1, 1000000000); if (s.ht == 6 && r.chance(0.25) && s.c != 'Z') s.hk = pick_hk(); s.v = (uint64_t)r.range(1, 1000000000);
		Op& o = add("hotm", s); data(o, s, true); int vk = vkind(s, true); if (vk) o.set("vk", vk);
		if ((W & W_CUT) && r.chance(0.3)) o.set("n", budget());
		if ((W & W_GUESS) && r.chance(0.12)) mayguess(o, s, false);
		maycpu(o);
		if ((W & W_FILE) && r.chance(filep)) { o.set("via", "file"); o.erase("st"); if (r.chance(0.4)) o.set("fs", r.range(1, 2)); }
	}
	void opts(Ses& s) { s.ob = (int)r.range(0, 3); s.os = tweak(0.4); Op& o = add("opts", s); o.set("ob", s.ob); if (s.os) o.set("os", (int64_t)s.os); }
	void step(Ses& s) {
		int z = (int)r.range(0, 99);
		if (!s.inited && !(z < 4)) { init(s); return; }
		if (z < 8 && (W & W_REINIT)) { init(s, r.chance(0.7)); return; }
		if (z < 12 && (W & W_RESET)) { Op& o = add("reset", s); if (r.chance(0.5)) o.set("rcnt", 1); s.inited = false; return; }
		if (z < 18 && (W & W_OPTS)) { opts(s); return; }
		if (z < 22 && (W & W_BADARG)) { bool m = (s.c == 'S') && r.chance(0.5); Op& o = add(m ? "hotm" : "hot", s); if (m) s.v = (uint64_t)r.range(1, 1000000000); data(o, s, m); o.set("bad", m ? (s.hk != HK_ZERO && s.hk != HK_IDENT && r.chance(0.4) ? 2 : s.nc ? (r.chance(0.5) ? 3 : 1) : 1) : 1); if (m) { o.set("m", (int64_t)s.m); o.erase("nH"); } return; }
		if (z < 24 && (W & W_NEW)) { Ses t = make(s.id, std::string(1, s.c).c_str()); s = t; news(s); return; }
		if (z < 50 && (W & W_HOTM) && (s.c == 'S' || s.c == 'Z')) { hotm(s); return; }
		if (!s.inited) { init(s); return; }
		hot(s);
	}
	void nice_end(Ses& s) { int w = W; W &= ~(W_WILD | W_BADQP | W_DEGEN | W_CUT | W_CPU | W_GUESS); if (!s.inited) init(s); else { s.v = (uint64_t)r.range(1, 1000000000); hot(s, 0); } W = w; }
	void history(Ses& s, int n) { news(s); for (int i = 0; i < n; ++i) step(s); nice_end(s); }
	int len(int a, int b) { return (int)r.range(a, big ? b * 2 : b); }
};
} // namespace


static const int BASIC = W_TWEAK | W_SEMI | W_STORE;
static const int ALL = W_CUT | W_BADQP | W_DEGEN | W_GUESS | W_OPTS | W_RESET | W_REINIT | W_BADARG | W_HOTM | W_FILE | W_WARM | W_NEW;

// a further call with exactly the QP of operation o
static Op again(const Op& o, int64_t budget) {
	Op c("hot"); static const char* same[] = {"s", "v", "fin", "act", "eq", "nb", 0};
	for (int j = 0; same[j]; ++j) if (o.has(same[j])) c.set(same[j], o.s(same[j]));
	if (budget >= 0) c.set("n", budget);
	return c;
}
// the equality-constrained QP of the current working set for other data
static void eqp(G& g, const Ses& s, double prob) { if (s.c == 'B' || !g.r.chance(prob)) return; Op& o = g.add("obs", s); o.set("w", 5); o.set("v", g.r.range(1, 1000000000)); if (g.r.chance(0.4)) o.set("k", g.r.range(2, 3)); }
static void observers(G& g, const Ses& s, int n) { for (int i = 0; i < n; ++i) { int w = (int)g.r.range(0, 14); Op& o = g.add("obs", s); o.set("w", w); if (w == 5) { o.set("v", g.r.range(1, 1000000000)); if (g.r.chance(0.4)) o.set("k", g.r.range(2, 3)); } if (w == 13) o.set("rcv", g.r.range(0, 120)); } }
static void copyop(G& g, std::vector<Ses>& S, size_t i, int maxid) {
	int d = (int)g.r.range(0, maxid); Op& o = g.add("copy", S[i]); o.set("d", d);
	if (g.r.chance(0.5)) { o.set("how", "assign"); if (g.r.chance(0.3)) { o.set("dn", g.r.range(1, 9)).set("dc", g.r.range(0, 8)); } }
	if (d == S[i].id) return;
	Ses t = S[i]; t.id = d; for (size_t j = 0; j < S.size(); ++j) if (S[j].id == d) { S.erase(S.begin() + (long)j); break; } S.push_back(t);
}
static uint64_t pattern(Rng& r) { static const uint64_t k[] = {0ull, 0xDDDDDDDDDDDDDDDDull, 0x7ff8000000000001ull, 0x3ff0000000000000ull, 0x7fefffffffffffffull, 0xffffffffffffffffull, 0x0101010101010101ull, 0x4415af1d78b58c40ull, 0x8000000000000000ull, 0x3cb0000000000000ull}; int z = (int)r.range(0, 12); return z < 10 ? k[z] : r.next(); }
static const char* corrupt_names[] = {"H", "g", "A", "lb", "ub", "lbA", "ubA"};

Prog generate(const std::string& prop, uint64_t seed, bool thorough) {
	int W = BASIC;
	if (prop == "C01") W |= ALL;
	else if (prop == "C02") W |= W_HOTM;
	else if (prop == "C03") W |= W_CPU | W_HOTM | W_OPTS | W_GUESS | W_WARM;
	else if (prop == "C04") W |= W_CUT | W_BADQP | W_OPTS | W_REINIT | W_HOTM;
	else if (prop == "C05") W |= W_CUT | W_BADQP | W_DEGEN | W_GUESS | W_OPTS | W_REINIT | W_HOTM | W_WARM;
	else if (prop == "C06") W |= W_CUT | W_BADQP | W_DEGEN | W_GUESS | W_OPTS | W_RESET | W_REINIT | W_HOTM | W_WARM | W_CPU | W_CB | W_BADARG;
	else if (prop == "C07") W |= W_CUT | W_BADQP | W_DEGEN | W_GUESS | W_OPTS | W_RESET | W_REINIT | W_HOTM | W_WARM | W_CB | W_BADARG;
	else if (prop == "C08") W |= W_CUT | W_BADQP | W_DEGEN | W_GUESS | W_OPTS | W_HOTM | W_WARM | W_CB | W_REINIT | W_BADARG;
	else if (prop == "C09") W |= ALL | W_CB;
	else if (prop == "C10") W |= W_CUT | W_BADQP | W_HOTM | W_WARM | W_REINIT;
	else if (prop == "C12") W |= W_CUT | W_BADQP | W_GUESS | W_HOTM | W_WARM | W_RESET | W_REINIT | W_CB;
	else if (prop == "C13") W |= W_CUT | W_BADQP | W_DEGEN | W_GUESS | W_OPTS | W_RESET | W_REINIT | W_HOTM | W_WARM | W_BADARG;
	else if (prop == "C14") W |= W_CUT | W_BADQP | W_DEGEN | W_GUESS | W_OPTS | W_RESET | W_REINIT | W_BADARG | W_HOTM | W_FILE | W_WARM;
	else if (prop == "C15") W |= W_CUT | W_BADQP | W_OPTS | W_RESET | W_REINIT | W_HOTM | W_WARM | W_GUESS | W_DEGEN;
	else if (prop == "C16") W |= W_CUT | W_BADQP | W_OPTS | W_REINIT | W_HOTM | W_CB;
	else if (prop == "C17") W = (W | W_CUT | W_BADQP | W_OPTS | W_HOTM | W_GUESS | W_FILE) & ~W_SEMI;
	else if (prop == "C21") W |= ALL | W_CPU | W_CB;
	else if (prop == "C24") W |= ALL | W_CB;
	for (const char* w : {"C24", "C06", "C07", "C08", "C09", "C12", "C13", "C21"}) if (prop == w) W |= W_WILD;
	G g(seed, prop, W, thorough); Rng& r = g.r; Prog& p = g.p;
	if (prop == "C05") { Ses s = g.make(0, "BQQSS"); g.news(s); int n = g.len(3, 12); for (int i = 0; i < n; ++i) { g.step(s); eqp(g, s, 0.4); } g.nice_end(s); }
	else if (prop == "C01" || prop == "C04") { Ses s = g.make(0, "BQQSS"); g.history(s, g.len(3, 12)); }
	else if (prop == "C14") { Ses s = g.make(0, "S"); g.history(s, g.len(3, 12)); }
	else if (prop == "C02") {
		// every call may be cut, perhaps repeatedly, before it may finish
		Ses s = g.make(0, "BQQSS"); g.news(s); int n = g.len(1, 4);
		for (int i = 0; i <= n; ++i) {
			if (i == 0) g.init(s); else if (r.chance(0.3)) g.hotm(s); else g.hot(s, 0);
			if (r.chance(0.8)) {
				Op first = p.ops.back(); p.ops.back().set("n", g.budget());
				int k = (int)r.range(0, 3); for (int j = 0; j < k; ++j) p.ops.push_back(again(first, g.budget()));
				if (r.chance(0.85)) p.ops.push_back(again(first, -1));
			}
		}
		p.ops.push_back(again(p.ops.back(), -1));
	}
	else if (prop == "C03") { Ses s = g.make(0, "BQQSS"); g.history(s, g.len(2, 7)); }
	else if (prop == "C06") {
		int k = (int)r.range(2, g.big ? 5 : 3);
		for (int j = 0; j < k; ++j) {
			size_t from = p.ops.size(); Ses s = g.make(j * 2, "BQQSS"); g.history(s, g.len(1, 4));
			if (r.chance(0.3)) { Op& o = g.add("copy", s); o.set("d", j * 2 + 1); if (r.chance(0.5)) { Op d("del"); d.set("s", s.id); p.ops.push_back(d); } Ses t = s; t.id = j * 2 + 1; g.step(t); }
			if (r.chance(0.3)) observers(g, s, 1);
			for (size_t i = from; i < p.ops.size(); ++i) p.ops[i].set("grp", j);
		}
		p.set("sched", r.range(1, 1000000000)); static const int pc[] = {5, 20, 100, 400, 2000}; p.set("pct", pc[r.range(0, 4)]);
	}
	else if (prop == "C07") {
		std::vector<Ses> S; S.push_back(g.make(0, "BQQSS")); g.news(S[0]); int n = g.len(3, 9); int copies = 0;
		for (int i = 0; i < n || !copies; ++i) {
			size_t j = (size_t)r.range(0, (int64_t)S.size() - 1);
			if (r.chance(0.35) || (i >= n && !copies)) { copyop(g, S, j, 3); ++copies; }
			else if (S.size() > 1 && r.chance(0.1)) { Op& o = g.add("del", S[j]); (void)o; S.erase(S.begin() + (long)j); }
			else g.step(S[j]);
		}
		for (size_t j = 0; j < S.size(); ++j) if (r.chance(0.8)) g.nice_end(S[j]);
	}
	else if (prop == "C08") {
		Ses s = g.make(0, "BQQSS"); g.news(s); int n = g.len(1, 6); for (int i = 0; i < n; ++i) g.step(s);
		bool rs = r.chance(0.6); if (!rs) g.W &= ~W_CB;
		if (rs) { g.add("reset", s).set("cutoff", 1); s.inited = false; }
		size_t at = p.ops.size(); g.opts(s); Op keep = p.ops.back(); (void)at;
		if (!rs) p.ops.back().set("cutoff", 1);
		g.init(s); { Op& o = p.ops.back(); if (o.i("gb") == 2) o.set("gb", 1); if (o.i("gc") == 2) o.set("gc", 1); }   // "the current working set" would depend on the past
		n = g.len(1, 4); for (int i = 0; i < n; ++i) g.step(s);
	}
	else if (prop == "C09") {
		Ses s = g.make(0, "BQQSS"); g.history(s, g.len(3, 8)); if (r.chance(0.3)) { Op& o = g.add("copy", s); o.set("d", 1); if (r.chance(0.5)) o.set("how", "assign"); Ses t = s; t.id = 1; g.step(t); }
		if (r.chance(0.5)) { size_t i = (size_t)r.range(0, (int64_t)p.ops.size()); Op o("obs"); o.set("s", 0).set("w", r.range(0, 14)).set("v", r.range(1, 1000000)); if (i > 0) p.ops.insert(p.ops.begin() + (long)i, o); }
		char b[32]; snprintf(b, sizeof b, "%llu", (unsigned long long)pattern(r)); p.set("fill0", std::string(b)); snprintf(b, sizeof b, "%llu", (unsigned long long)pattern(r)); p.set("fill1", std::string(b));
		static const int pl[] = {-2, -1, 0, 1, 2, 3, 20}; p.set("pl", pl[r.range(0, 5)]); p.set("stream", r.range(0, 3)); if (r.chance(0.5)) p.set("tick", r.range(0, 3000)); if (r.chance(0.5)) p.set("rt", r.range(1, 1000000)); if (r.chance(0.5)) p.set("start", r.range(0, 2000000000)); p.set("quiet", r.range(0, 1));
	}
	else if (prop == "C10") {
		Ses s = g.make(0, "BQQSS"); g.W |= W_FILE; g.filep = 0.75; g.news(s); int n = g.len(2, 6);
		for (int i = 0; i < n; ++i) {
			g.step(s); Op& o = p.ops.back();
			if (o.s("via") == "file" && r.chance(0.6)) {
				int nf = o.name == "hot" ? 5 : 7; static const int kinds[] = {1, 2, 3, 5, 10, 10, 11, 11, 12, 13, 14, 2}; const char* nm = corrupt_names[r.range(0, 6)]; if (nf == 5 && (nm[0] == 'H' || nm[0] == 'A')) nm = "g"; if (o.i("R") && r.chance(0.4)) nm = "R";
				int fk = kinds[r.range(0, 11)]; o.set("ff", nm).set("fk", fk).set("fa", r.chance(0.2) ? 1000 : r.range(0, 1000)); if (r.chance(0.3)) o.set("fe", 1);
				if (o.name == "init" && fk != 3 && fk != 14) { o.set("mayfail", 1); s.inited = false; }
			}
		}
		g.filep = 0.3; g.nice_end(s);
	}
	else if (prop == "C11") {
		Ses s = g.make(0, "QQS"); g.W |= W_CUT; if (r.chance(0.6)) { g.news(s); g.init(s); if (r.chance(0.5)) g.hot(s); }
		int n = g.len(1, 5);
		for (int i = 0; i < n; ++i) {
			Op& o = g.add("write", s); int w = (int)r.range(0, 4); if (w >= 3) w = s.inited ? (r.chance(0.6) ? 4 : 5) : 0; o.set("w", w).set("v", r.range(1, 1000000000)).set("n", r.chance(0.2) ? r.range(200, 1500) : r.range(0, 30)).set("slot", r.range(0, 1));
			if (w == 0) o.set("mm", r.range(1, 6)); if (w < 3 && r.chance(0.4)) o.set("app", 1);
			if (r.chance(0.6)) { static const int k[] = {1, 2, 3, 4, 4, 5}; o.set("fk", k[r.range(0, 5)]).set("fa", r.chance(0.3) ? r.range(0, 60) : r.range(0, 6000)); }
			else if (r.chance(0.3)) o.set("cap", r.chance(0.5) ? r.range(0, 100) : r.range(0, 9000));
		}
		if (s.inited) g.nice_end(s);
	}
	else if (prop == "C12") {
		g.small = true; Ses s = g.make(0, "BQQSS"), t = g.make(1, "BQS"); g.news(t); if (r.chance(0.5)) g.init(t); g.news(s); int n = g.len(1, 4);
		for (int i = 0; i < n; ++i) { if (r.chance(0.2)) g.step(t); g.step(s); }
		if (r.chance(0.4)) { Op& o = g.add("copy", s); o.set("d", 2); if (r.chance(0.5)) { o.set("how", "assign"); if (r.chance(0.5)) o.set("dn", r.range(1, 5)).set("dc", r.range(0, 4)); } }
		if (r.chance(0.3)) g.add("reset", t); 
		if (r.chance(0.3)) g.add("del", s);
		size_t from = p.ops.size(); Ses f = g.make(9, std::string(1, s.c).c_str()); g.W = BASIC; f.nv = s.nv; f.nc = s.nc; g.news(f); g.init(f); g.hot(f, 0); for (size_t i = from; i < p.ops.size(); ++i) p.ops[i].set("fresh", 1);
		p.set("cap", thorough ? 400 : 24).set("leaks", 0);
	}
	else if (prop == "C13") {
		Ses s = g.make(0, "BQQSS"); g.news(s); observers(g, s, (int)r.range(0, 2)); int n = g.len(2, 8);
		for (int i = 0; i < n; ++i) { g.step(s); if (r.chance(0.7)) observers(g, s, (int)r.range(1, 4)); }
		g.nice_end(s); p.set("quiet", r.range(0, 1));
	}
	else if (prop == "C15") {
		Ses s = g.make(0, "Z"); bool wild = r.chance(0.15); if (wild) { g.W |= W_WILD; p.set("wild", 1); }      // any options: only safety is judged
		g.news(s); if (wild) { Op& o = p.ops.back(); o.set("sc", r.range(1, 1000000000)); } int n = g.len(2, 8); bool faulty = r.chance(0.6);
		for (int i = 0; i < n; ++i) {
			if (wild && r.chance(0.2)) { g.opts(s); p.ops.back().set("sc", r.range(1, 1000000000)).set("how", r.range(0, 1)); }
			if (r.chance(0.12)) { Op& o = g.add("copy", s); o.set("d", s.id + 1); if (r.chance(0.5)) o.set("how", "assign"); if (r.chance(0.6)) { g.add("del", s); s.id += 1; } continue; }
			g.step(s); Op& o = p.ops.back();
			if (faulty && (o.name == "init" || o.name == "hot" || o.name == "hotm") && r.chance(0.4)) {
				static const int mask[] = {0, 1, 2, 2, 4, 4, 0}; int mk = mask[r.range(0, 6)];
				o.set("lf", mk == 1 || mk == 2 ? r.range(0, 3) : r.chance(0.5) ? r.range(0, 12) : r.range(0, 80)).set("lk", mk).set("lm", r.range(0, 2)); if (r.chance(0.2)) o.set("lp", 1);
				if (r.chance(0.7)) { g.add("reset", s); s.inited = false; }
			}
			eqp(g, s, 0.25);
		}
		g.nice_end(s);
	}
	else if (prop == "C16") {
		Ses s = g.make(0, "QQS"); if (s.nc == 0) s.nc = (int)r.range(1, 6); g.news(s); g.cbp = 1.0; int n = g.len(2, 7); Ses t = s; bool two = r.chance(0.3); if (two) { t = g.make(1, "QS"); if (t.nc == 0) t.nc = 2; g.news(t); }
		for (int i = 0; i < n; ++i) {
			Ses& u = two && r.chance(0.4) ? t : s; g.step(u); Op& o = p.ops.back();
			if ((o.name == "init" || o.name == "hot" || o.name == "hotm") && r.chance(0.35)) { o.set("cf", r.chance(0.5) ? r.range(0, 6) : r.range(0, 60)); if (r.chance(0.3)) o.set("cp", 1); if (r.chance(0.3)) o.set("ce", r.chance(0.3) ? -r.range(1, 5) : r.range(1, 100)); g.add("reset", u); u.inited = false; }
		}
		g.nice_end(s); if (two) g.nice_end(t);
	}
	else if (prop == "C17") {
		// a session runs, its results are saved now and then, it is gone at some point; another one starts from what was saved
		g.filep = 0.15; Ses s = g.make(0, "BQQSS"); g.news(s); int lives = (int)r.range(1, g.big ? 4 : 2);
		for (int l = 0; l <= lives; ++l) {
			if (l) {
				Ses t = s; t.id = s.id + 1; t.inited = false; if (r.chance(0.3) && s.c != 'B') t.c = s.c == 'Q' ? 'S' : 'Q'; if (r.chance(0.3)) { t.ob = (int)r.range(0, 3); t.os = 0; } g.news(t);
				g.add("load", t).set("f", s.id); if (r.chance(0.7)) g.add("del", s);
				int z = (int)r.range(0, 9); bool same = z < 4, near = !same && z < 7;     // the very QP, another QP with the same matrices, anything
				if (!same) s.v = (uint64_t)r.range(1, 1000000000); if (!same && !near) s.m = (uint64_t)r.range(1, 1000000000);
				t.v = s.v; t.m = s.m; s = t;
				if (r.chance(0.12)) {       // contradicting information first
					Op& o = g.add("init", s); g.data(o, s, true); bool R = (s.hk == HK_POSDEF || s.hk == HK_DIAG) && r.chance(0.5); o.set("contra", 1).set("gs", r.range(1, 1000000));
					if (R) { o.set("R", 1); int k = (int)r.range(1, 7); if (k & 1) o.set("xg", r.range(1, 4)); if (k & 2) o.set("yg", r.range(1, 4)); if (k & 4) { o.set("gb", r.range(1, 7)); } }
					else { o.set("yg", r.range(1, 4)); if (s.c == 'B' || r.chance(0.6)) o.set("gb", r.range(1, 7)); if (s.c != 'B' && (!o.has("gb") || r.chance(0.5))) o.set("gc", r.range(1, 7)); }
				}
				Op& o = g.add("init", s); g.data(o, s, true); int vk = g.vkind(s, false); if (vk && r.chance(0.3)) o.set("vk", vk); if (r.chance(0.15)) o.set("n", g.budget());
				static const int kind[] = {3, 3, 3, 3, 1, 2, 4}; auto pick = [&] { return kind[r.range(0, 6)]; };
				z = (int)r.range(0, 7);
				if (z == 0 && (s.hk == HK_POSDEF || s.hk == HK_DIAG)) o.set("R", 1);
				else { if (z == 1 || z == 3 || z == 5 || z >= 6) o.set("xg", pick()); if (z == 2 || z == 3 || z >= 6) o.set("yg", pick()); if (z == 0 || z >= 4) { o.set("gb", r.chance(0.7) ? 3 : r.range(1, 7)); if (s.c != 'B') o.set("gc", r.chance(0.7) ? 3 : r.range(1, 7)); }
					if (o.has("yg") && !o.has("xg")) { o.erase("gb"); o.erase("gc"); } }
				o.set("gs", r.range(1, 1000000)).set("gd", r.range(0, 6)); s.inited = true;
				if (r.chance(0.15) && g.filep > 0) o.set("via", "file").erase("st");
			}
			int n = g.len(1, 4);
			for (int i = 0; i < n; ++i) {
				g.step(s); Op& o = p.ops.back(); if (l && (o.name == "hot" || o.name == "hotm") && r.chance(0.5)) { o.set("gb", r.chance(0.7) ? 3 : r.range(1, 7)); if (s.c != 'B') o.set("gc", r.chance(0.7) ? 3 : r.range(1, 7)); o.set("gs", r.range(1, 1000000)); }
				if (r.chance(0.5) || (i + 1 == n && r.chance(0.5))) g.add("save", s);
			}
		}
		g.nice_end(s);
	}
	else if (prop == "C18") {
		// three sessions behind global names; calls in any order, sensible or not
		Ses s[3]; bool set[3] = {false, false, false}; int n = g.len(4, 18); int only = r.chance(0.3) ? (int)r.range(0, 2) : -1;
		g.W |= W_CUT | W_BADQP | W_DEGEN | W_CPU;
		auto call = [&](const char* nm, int k) -> Op& { p.ops.push_back(Op(nm)); p.ops.back().set("k", k); return p.ops.back(); };
		auto setup = [&](int k, bool valid) { s[k] = g.make(k, k == 1 ? "B" : k == 2 ? "S" : "Q"); Op& o = call("c_set", k); int z = (int)r.range(0, 3); o.set("nv", !valid && z != 1 && z != 2 ? -r.range(0, 2) : s[k].nv).set("nc", !valid && z == 1 ? -r.range(1, 3) : s[k].nc).set("ht", !valid && (z == 2 || (z == 1 && k == 1)) ? (r.chance(0.5) ? -1 : r.range(7, 9)) : s[k].ht); };
		for (int i = 0; i < n; ++i) {
			int k = only >= 0 && r.chance(0.8) ? only : (int)r.range(0, 2), z = (int)r.range(0, 99);
			if (z < 5) { call("c_cl", k); set[k] = false; s[k].inited = false; continue; }
			if (z < 8) { Ses keep = s[k]; setup(k, false); s[k] = keep; continue; }
			if ((!set[k] && z < 85) || z < 14) { setup(k, true); set[k] = true; s[k].inited = false; continue; }
			bool init = (!s[k].inited && z < 90) || z < 30; if (init && r.chance(0.7)) { s[k].m = (uint64_t)r.range(1, 1000000000); if (s[k].ht == 6) s[k].hk = g.pick_hk(); }
			if (k == 2 && !init && r.chance(0.6)) s[k].m = (uint64_t)r.range(1, 1000000000);
			s[k].v = (uint64_t)r.range(1, 1000000000); Op& o = call(init ? "c_init" : "c_hot", k); o.set("m", (int64_t)s[k].m).set("v", (int64_t)s[k].v).set("hk", s[k].hk); if (s[k].sp) o.set("sp", s[k].sp); if (r.chance(0.3)) o.set("nb", r.range(1, 15)); if (s[k].fin != 60) o.set("fin", s[k].fin);
			int vk = g.vkind(s[k], !init); if (vk) o.set("vk", vk); if (r.chance(0.25)) o.set("n", g.budget()); g.maycpu(o); if (r.chance(0.2)) o.set("ct", 1);
			if (init && r.chance(0.8)) { o.set("om", r.chance(0.05) ? (r.chance(0.5) ? -1 : 3) : r.range(0, 2)); if (r.chance(0.4)) o.set("os", r.range(1, 1000000)); }
			if (r.chance(0.06)) o.set("nul", r.range(1, 31)); if (r.chance(0.05)) o.set("nd", r.range(1, 7));
			if (set[k] && !o.has("nul")) s[k].inited = true;
		}
		char b[32]; snprintf(b, sizeof b, "%llu", (unsigned long long)pattern(r)); p.set("fill0", std::string(b));
	}
	else if (prop == "C19") {
		// several handles of the sequence interface, calls in any order, some of them malformed, some cut, some out of memory
		g.W |= W_CUT | W_BADQP | W_DEGEN | W_CPU; int slots = (int)r.range(1, 4), n = g.len(4, 16); std::vector<Ses> S; std::vector<char> live((size_t)slots, 0); bool faults = r.chance(0.3);
		for (int i = 0; i < slots; ++i) S.push_back(g.make(i, "BQQ"));
		p.set("mi", r.range(0, 1)); if (r.chance(0.2)) p.set("pl", r.range(-2, 3)); else p.set("pl", 0);
		auto qp = [&](Op& o, Ses& s, bool mats, bool hot) {
			o.set("m", (int64_t)s.m).set("hk", s.hk); if (s.sp) o.set("sp", s.sp); s.v = (uint64_t)r.range(1, 1000000000); o.set("v", (int64_t)s.v); if (s.fin != 60) o.set("fin", s.fin); if (s.act != 50) o.set("act", s.act); if (s.eq != 15) o.set("eq", s.eq);
			int vk = g.vkind(s, hot); if (vk) o.set("vk", vk); if (r.chance(0.4)) o.set("nb", r.range(1, 15)); if (r.chance(0.3)) o.set("inf", 1); if (r.chance(0.2)) o.set("up", 1);
			if (mats) { if (r.chance(0.5)) o.set("mH", r.range(1, 3)); if (r.chance(0.5)) o.set("mA", r.range(1, 3)); if (s.hk == HK_ZERO ? r.chance(0.5) : r.chance(0.04)) o.set("he", 1); if (r.chance(0.3)) o.set("a0", 1); }
		};
		auto optn = [&](Op& o, Ses& s, double pr) { if (r.chance(pr)) { o.set("ol", r.chance(0.15) ? 1 : 2).set("ob", s.ob); if (s.os) o.set("os", (int64_t)s.os); if (r.chance(0.25)) { o.set("om", r.range(1, 1000000)); if (r.chance(0.3)) o.set("oi", 1); } if (r.chance(0.3)) o.set("n", g.budget()); g.maycpu(o); } };
		auto call = [&](const char* nm, const Ses& s) -> Op& { return g.add(nm, s); };
		for (int i = 0; i < n; ++i) {
			size_t j = (size_t)r.range(0, slots - 1); Ses& s = S[j]; int z = (int)r.range(0, 99); char t;
			if (z < 7) t = 'q'; else if (!live[j] && z < 85) t = 'i'; else if (z < 13) t = 'i'; else if (z < 22) t = 'c'; else if (z < 40) t = 'm'; else if (z < 52) t = 'e'; else t = 'h';
			if ((t == 'm' || t == 'e') && s.c == 'B' && r.chance(0.85)) t = 'h';
			bool bad = r.chance(0.2); char nm[4] = {'x', '_', t, 0};
			Ses keep = s; if (t == 'q' || (t == 'i' && (bad || r.chance(0.7)))) { if (t == 'q' || !live[j] || r.chance(0.8)) s = g.make((int)j, "BQQ"); }
			if (t == 'm') { s.m = (uint64_t)r.range(1, 1000000000); if (r.chance(0.2)) s.hk = g.pick_hk(); }
			Op& o = call(nm, s);
			if (t == 'i' || t == 'q') { o.set("c", std::string(1, s.c)).set("nv", s.nv).set("nc", s.nc); qp(o, s, true, false); optn(o, s, 0.6);
				if (t == 'q') { int k = r.chance(0.5) ? (int)r.range(2, 4) : 1; if (k > 1) o.set("k", k); if (o.has("vk")) o.set("badmask", r.range(1, 15)); }
				if (r.chance(0.4)) { int ax = (int)r.range(1, 2); o.set("ax", ax); if (ax == 1) o.set("xg", r.range(1, 2)); else { int w = (int)r.range(0, 4); if (w == 0) o.set("R", 1); else { if (r.chance(0.5)) o.set("gb", r.chance(0.5) ? 1 : r.chance(0.5) ? 4 : r.range(5, 7)); if (r.chance(0.5)) o.set("gc", r.chance(0.5) ? 1 : r.chance(0.5) ? 4 : r.range(5, 7)); if (r.chance(0.4)) o.set("xg", r.range(1, 2)); } o.set("gs", r.range(1, 1000000)); if (r.chance(0.3)) o.set("ht", s.hk == HK_ZERO ? 0 : s.hk == HK_IDENT ? 1 : s.hk == HK_SEMI ? 4 : 2); if (r.chance(0.2)) o.set("am", r.range(1, 31)); } }
				if (r.chance(0.3)) o.set("nl", r.range(1, t == 'i' ? 7 : 6)); }
			else if (t == 'h') { if (r.chance(0.05)) o.set("c", s.c == 'B' ? "Q" : "B"); qp(o, s, false, true); optn(o, s, 0.5); if (r.chance(0.3)) o.set("nl", r.range(1, 6)); }
			else if (t == 'm') { qp(o, s, true, true); optn(o, s, 0.5); if (r.chance(0.3)) o.set("nl", r.range(1, 6)); }
			else if (t == 'e') { qp(o, s, false, true); o.erase("vk"); if (r.chance(0.4)) { o.set("ol", 2).set("ob", s.ob); if (s.os) o.set("os", (int64_t)s.os); } if (r.chance(0.4)) o.set("k", r.range(2, 4)); if (r.chance(0.4)) o.set("nl", r.range(1, 4)); }
			if (bad) { static const int kinds[] = {1, 2, 3, 4, 5, 5, 5, 5, 6, 6, 6, 6, 7, 7, 8, 9, 9, 9, 10, 11, 11, 11, 14, 15}; static const int ck[] = {1, 2, 3, 4, 5, 5, 5, 5}; int k = t == 'c' ? ck[r.range(0, 7)] : kinds[r.range(0, 23)]; if (k == 5 && (t == 'i' || t == 'q')) k = 11; o.set("bad", k).set("ba", r.range(0, 1000000)); if (t != 'm') s = keep; else if (live[j]) s = keep; }
			else { if (faults && r.chance(0.2)) { o.set("af", r.chance(0.5) ? r.range(0, 12) : r.range(0, 120)); if (r.chance(0.2)) o.set("ap", 1); live[j] = 0; }
				if (t == 'i') live[j] = 1; else if (t == 'c') live[j] = 0; else if (t == 'q') s = keep; if (o.has("af")) live[j] = 0; }
		}
	}
	else if (prop == "C26") {
		// several blocks of a model and the sessions of the Scilab functions, side by side
		g.W |= W_CUT | W_BADQP | W_DEGEN; int slots = (int)r.range(1, 4), n = g.len(4, 16); bool faults = r.chance(0.25); std::vector<Ses> S; std::vector<char> live((size_t)slots, 0), sci((size_t)slots, 0); p.set("pl", 0);
		for (int i = 0; i < slots; ++i) { S.push_back(g.make(i, "BQQSS")); sci[(size_t)i] = r.chance(0.4); }
		auto qp = [&](Op& o, Ses& s, bool hot) { o.set("m", (int64_t)s.m).set("hk", s.hk); if (s.sp) o.set("sp", s.sp); s.v = (uint64_t)r.range(1, 1000000000); o.set("v", (int64_t)s.v); if (s.fin != 60) o.set("fin", s.fin); if (s.act != 50) o.set("act", s.act); if (s.eq != 15) o.set("eq", s.eq); int vk = g.vkind(s, hot); if (vk) o.set("vk", vk); if (r.chance(0.2)) o.set("inf", 1); };
		for (int i = 0; i < n; ++i) {
			size_t j = (size_t)r.range(0, slots - 1); Ses& s = S[j]; int z = (int)r.range(0, 99); bool bad = r.chance(0.15); char t; const bool sc = sci[j] != 0;
			if (!live[j] && z < 85) t = sc ? 'I' : 'K'; else if (z < 10) t = sc ? 'I' : 'K'; else if (z < 16) t = sc ? 'C' : 'T'; else if (z < 22 && sc) t = 'Q'; else t = sc ? 'H' : 'S';
			if (t == 'K' && r.chance(0.9) && (!live[j] || r.chance(0.8))) s = g.make((int)j, "BQQSS"); Ses keep = s; if (t == 'Q' || t == 'I') { char c = s.c; for (int q = 0; q < 20; ++q) { s = g.make((int)j, "BQQSS"); if (s.c == c || t == 'Q' || !live[j]) break; } }
			if (s.c == 'S' && (t == 'S' || t == 'H')) { s.m = (uint64_t)r.range(1, 1000000000); if (r.chance(0.2)) s.hk = g.pick_hk(); }
			if (t == 'K' && s.nv < 2 && r.chance(0.9)) s.nv = 2; if ((t == 'I' || t == 'Q') && s.nc < 1 && r.chance(0.9)) s.nc = 1;
			char nm[4] = {'x', '_', t, 0}; Op& o = g.add(nm, s);
			if (t == 'K' || t == 'I' || t == 'Q') o.set("nv", s.nv).set("nc", s.nc); if (t != 'S' && t != 'T') o.set("c", std::string(1, t == 'Q' ? 'Q' : s.c));
			if (t != 'T' && t != 'C') qp(o, s, t == 'H' || t == 'S'); if (t != 'S' && t != 'T' && t != 'C' && r.chance(0.35)) o.set("nb", r.range(1, 15));
			if (t == 'K') { if (r.chance(0.6)) o.set("sc", 1); if (r.chance(0.03)) o.set("he", 1); if (r.chance(0.3)) o.set("a0", 1); o.set("ba", r.range(0, 1000000)); }
			else if (t == 'I' || t == 'H' || t == 'Q') { if (r.chance(0.3)) o.set("row", 1); if (r.chance(0.3)) o.set("nl", r.range(0, 5)); if (r.chance(0.3)) o.set("n", g.budget()); }
			if (bad && t != 'S' && t != 'T') { o.set("bad", t == 'K' ? r.range(1, 8) : t == 'C' ? 1 : r.chance(0.6) ? 4 : r.range(1, 3)).set("ba", r.range(0, 1000000)); if (t != 'C') s = keep; if (t == 'K') live[j] = 0; }
			else { if (faults && r.chance(0.2)) { o.set("af", r.chance(0.5) ? r.range(0, 12) : r.range(0, 120)); if (r.chance(0.2)) o.set("ap", 1); }
				if (t == 'I' || t == 'K') live[j] = 1; else if (t == 'C' || t == 'T') live[j] = 0; else if (t == 'Q') s = keep; }
		}
	}
	else if (prop == "C20") {
		int n = g.len(1, 3);
		for (int i = 0; i < n; ++i) {
			Ses s = g.make(0, "BQQ"); p.ops.push_back(Op("oqp")); Op& o = p.ops.back(); o.set("nv", s.nv).set("nc", s.nc).set("N", r.range(1, 6)).set("m", (int64_t)s.m).set("v", (int64_t)s.v).set("hk", s.hk).set("ob", s.ob); if (s.os) o.set("os", (int64_t)s.os); if (s.sp) o.set("sp", s.sp); if (s.fin != 60) o.set("fin", s.fin); if (s.act != 50) o.set("act", s.act); if (s.eq != 15) o.set("eq", s.eq);
			o.set("sparse", r.range(0, 1)).set("hot", r.range(0, 1)); if (r.chance(0.25)) o.set("simple", 1); if (r.chance(0.3)) o.set("fs", r.range(1, 2)); if (r.chance(0.3)) o.set("nec", r.range(0, 3));
			if (r.chance(0.25)) o.set("n", g.budget());
			if (r.chance(0.3)) g.maycpu(o); if (r.chance(0.3)) o.set("rt", r.range(1, 1000000)); o.erase("cj"); o.erase("cs");
			if (r.chance(0.2)) { static const int vk[] = {VK_INF_BOUNDS, VK_INF_CONSTR, VK_INF_CONBND, VK_DEGEN}; o.set("vk", s.nc ? vk[r.range(0, 3)] : VK_INF_BOUNDS).set("badmask", r.range(1, 31)); }
			bool opt = r.chance(0.3); if (r.chance(0.35)) { o.set("rd", 1); opt = r.chance(0.6); if (s.nc == 0 && r.chance(0.5)) o.set("nullA", 1); else if (s.nc && r.chance(0.1)) o.set("nullA", r.range(1, 7)); } if (opt) o.set("opt", 1);
			if (r.chance(0.6)) {
				std::vector<const char*> f = {"dims.oqp", "H.oqp", "g.oqp", "lb.oqp", "ub.oqp"}; if (s.nc) { f.push_back("A.oqp"); f.push_back("lbA.oqp"); f.push_back("ubA.oqp"); } if (o.i("rd") && opt) { f.push_back("x_opt.oqp"); f.push_back("y_opt.oqp"); f.push_back("obj_opt.oqp"); f.push_back("x_opt.oqp"); f.push_back("y_opt.oqp"); }
				static const int kinds[] = {1, 2, 3, 5, 10, 10, 11, 11, 12, 13, 14, 2}; o.set("ff", f[(size_t)r.range(0, (int64_t)f.size() - 1)]).set("fk", kinds[r.range(0, 11)]).set("fa", r.chance(0.2) ? 1000 : r.range(0, 1000)); if (r.chance(0.3)) o.set("fe", 1);
			} else if (r.chance(0.15)) {      // dimensions that do not go with the data: more than there are, none, negative
				int which = (int)r.range(0, 3); o.set("dx", which); int64_t have = which == 0 ? o.i("N") : which == 1 ? s.nv : s.nc; o.set("dv", which == 3 ? -r.range(1, 9) : which == 2 && s.nc == 0 ? (r.chance(0.5) ? -1 : r.range(1, 4)) : r.chance(0.3) ? -r.range(which == 2 ? 1 : 0, 4) : have + r.range(1, 9));
			}
		}
	}
	else if (prop == "C24") {
		// options are handed over in every way a program can, the sessions go through everything that happens to sessions
		std::vector<Ses> S; S.push_back(g.make(0, "BQQSSZ")); g.news(S[0]); int n = g.len(4, 14);
		for (int i = 0; i < n; ++i) {
			size_t j = (size_t)r.range(0, (int64_t)S.size() - 1); int z = (int)r.range(0, 99);
			if (z < 22) { Ses& s = S[j]; s.ob = (int)r.range(0, 3); s.os = g.tweak(0.4); Op& o = g.add("opts", s); o.set("ob", s.ob); if (s.os) o.set("os", (int64_t)s.os); int k = (int)r.range(0, 3); if (k) o.set("how", k); if (k == 3) o.set("v", r.range(1, 1000000000)); else if (r.chance(0.5)) o.set("sc", r.range(1, 1000000000)); }
			else if (z < 29) copyop(g, S, j, 2); else if (z < 36) observers(g, S[j], 1); else if (z < 38 && S.size() > 1) { g.add("del", S[j]); S.erase(S.begin() + (long)j); }
			else { g.step(S[j]); Op& o = p.ops.back(); bool dead = false, solve = o.name == "init" || o.name == "hot" || o.name == "hotm";
				if (solve && r.chance(0.03)) { o.set("af", r.chance(0.4) ? r.range(0, 30) : r.range(0, 300)); dead = true; }
				if (o.s("via") == "file" && r.chance(0.3)) { static const int kinds[] = {1, 2, 5, 10, 11, 12, 13}; int nf = o.name == "hot" ? 5 : 7; const char* nm = corrupt_names[r.range(0, 6)]; if (nf == 5 && (nm[0] == 'H' || nm[0] == 'A')) nm = "g"; o.set("ff", nm).set("fk", kinds[r.range(0, 6)]).set("fa", r.range(0, 1000)); if (o.name == "init") { o.set("mayfail", 1); S[j].inited = false; } }
				if (o.has("cb") && r.chance(0.5)) o.set("cf", r.range(0, 40)); else if (S[j].cb && (o.name == "hot" || o.name == "hotm") && r.chance(0.5)) { o.set("cf", r.range(0, 40)); if (r.chance(0.3)) o.set("cp", 1); }
				if (dead) { Ses t = g.make(S[j].id, "BQQSSZ"); S[j] = t; g.news(t); } }
		}
	}
	else if (prop == "C21") {
		std::vector<Ses> S; S.push_back(g.make(0, "BQQSS")); g.news(S[0]); int n = g.len(3, 11);
		for (int i = 0; i < n; ++i) {
			size_t j = (size_t)r.range(0, (int64_t)S.size() - 1); int z = (int)r.range(0, 99);
			if (z < 8) copyop(g, S, j, 2); else if (z < 16) observers(g, S[j], 1); else if (z < 19 && S.size() > 1) { g.add("del", S[j]); S.erase(S.begin() + (long)j); }
			else { g.step(S[j]); }
		}
	}
	return p;
}

const char* rule_of(const std::string& prop) { (void)prop; return ""; }
int64_t runs_of(const std::string& prop, bool thorough) { (void)prop; return thorough ? 200000 : 8000; }
} // namespace sim
