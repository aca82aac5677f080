// Seeded search over simulated executions; gating, minimisation, replay, statistics.
#include <cerrno>
#include <cstdio>
#include <cstring>
#include <fcntl.h>
#include <fstream>
#include <sstream>
#include <sys/personality.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>
#include "judge.hpp"

using namespace sim;
static double wall() { struct timespec ts; clock_gettime(CLOCK_MONOTONIC, &ts); return ts.tv_sec + 1e-9 * ts.tv_nsec; }
static std::string slurp(const std::string& f) { std::ifstream i(f.c_str(), std::ios::binary); std::stringstream s; s << i.rdbuf(); return s.str(); }
static void spit(const std::string& f, const std::string& t) { std::ofstream o(f.c_str(), std::ios::binary); o << t; }
static std::string one_line(std::string s) { for (char& c : s) if (c == '\n' || c == '\r') c = ' '; return s; }

// smaller program with the same kind of violation
static Prog minimise(Prog p, const Verdict& v0, double budget, int& steps) {
	double t0 = wall(); steps = 0;
	auto same = [&](const Prog& q) { if (wall() - t0 > budget || steps > 1500) return false; ++steps; Verdict v = judge(q, 0); return v.bad && v.kind == v0.kind; };
	bool again = true;
	while (again && wall() - t0 < budget) {
		again = false;
		for (size_t chunk = std::max<size_t>(1, p.ops.size() / 2); chunk >= 1; chunk /= 2) {
			for (size_t i = 0; i + chunk <= p.ops.size();) {
				Prog q = p; q.ops.erase(q.ops.begin() + i, q.ops.begin() + i + chunk);
				if (same(q)) { p = q; again = true; } else i += chunk;
			}
			if (chunk == 1) break;
		}
		for (size_t i = 0; i < p.ops.size(); ++i) for (size_t k = 0; k < p.ops[i].kv.size();) {
			const std::string key = p.ops[i].kv[k].first;
			if (key == "s" || key == "c" || key == "m" || key == "v" || key == "grp") { ++k; continue; }
			Prog q = p; q.ops[i].kv.erase(q.ops[i].kv.begin() + k);
			if (same(q)) { p = q; again = true; } else ++k;
		}
		for (size_t i = 0; i < p.ops.size(); ++i) for (size_t k = 0; k < p.ops[i].kv.size(); ++k) {
			const std::string key = p.ops[i].kv[k].first;
			if (key != "nv" && key != "nc" && key != "n") continue;
			int64_t val = p.ops[i].i(key), lo = key == "nv" ? 1 : 0;
			while (val > lo) { Prog q = p; q.ops[i].kv[k].second = std::to_string(val - 1); if (!same(q)) break; p = q; --val; again = true; if (key == "n" && val > 20) break; }
		}
	}
	return p;
}

// what happened in an execution, for people
static int do_show(const std::string& file, int plevel) {
	std::string txt = slurp(file); Prog p; if (!p.parse(txt)) return 2;
	Variant v; Trace t; if (p.find("fill")) v.fill = p.u("fill"); if (getenv("SIM_FILL")) v.fill = strtoull(getenv("SIM_FILL"), 0, 0); if (plevel >= 0) { v.plevel = plevel; run_here(p, v, t, 0); } else t = run_isolated(p, v);
	printf("died %d signal %d at %d heap '%s' leaked %ld\n", t.died(), t.signal, t.at_op, t.heap_error.c_str(), (long)t.leaked);
	for (auto& r : t.recs) {
		printf("%d %s rc=%d (%s) exc=%d nwsr %ld/%ld cpu %g/%g allocs=%ld reads=%ld calls=%ld faults=%ld argmod=%d st=%d init=%d solved=%d inf=%d unb=%d simple=%d ht=%d reg=%d cnt=%ld obj=%.10g\n", r.op, r.name.c_str(), r.rc, rc_name(r.rc), r.exc, (long)r.nout, (long)r.nin, r.cout_, r.cin, (long)r.allocs, (long)r.clkreads, (long)r.calls, (long)r.faults, r.argmod, r.o.status, r.o.init, r.o.solved, r.o.infeas, r.o.unb, r.o.simple, r.o.htype, r.o.reg, (long)r.o.count, r.o.obj);
		if (r.hasqp && r.o.x.size() && r.o.y.size()) { QP q = make_qp(r.q); KKT k = kkt(q, r.o.x, r.o.y); printf("   truth %d vk %d hk %d kkt stat %g feas %g compl %g sign %g\n", q.truth, r.q.vk, r.q.hk, k.stat, k.feas, k.compl_, k.sign);
			for (int i = 0; i < q.nv + q.nc; ++i) printf("   %d: lo %g hi %g x* %g x %g y* %g y %g ws %d/%g\n", i, i < q.nv ? q.lb[i] : q.lbA[i - q.nv], i < q.nv ? q.ub[i] : q.ubA[i - q.nv], i < q.nv ? q.x[i] : 0, i < q.nv ? r.o.x[i] : 0, q.y[i], r.o.y[i], q.ws[i], r.o.ws[i]); }
	}
	return 0;
}

static int do_replay(const std::string& file) {
	std::string txt = slurp(file); Prog p; if (!p.parse(txt)) { printf("cannot read %s\n", file.c_str()); return 2; }
	Verdict v = judge(p, 0);
	printf("replay property=%s seed=%llu kind=%s op=%d hash=%016llx\n", p.prop.c_str(), (unsigned long long)p.seed, v.bad ? v.kind.c_str() : "none", v.op, (unsigned long long)v.hash);
	if (v.bad) printf("VIOLATION property=%s replay=%s\n  %s\n", p.prop.c_str(), file.c_str(), v.msg.c_str());
	return v.bad ? 1 : 0;
}

static void worker(const std::string& prop, uint64_t seed, int64_t from, int64_t to, int w, int nw, bool thorough, double deadline, const std::string& dir, const std::string& rdir) {
	Stats st; std::set<std::string> kinds; std::ostringstream viol; int nviol = 0; bool cut = false;
	for (int64_t i = from + w; i < to; i += nw) {
		if (wall() > deadline) { cut = true; break; }
		uint64_t rs = mix(seed, 1000003ull * (uint64_t)i + 17); Prog p = generate(prop, rs, thorough);
		int64_t nt = st.nontrivial; Verdict v = judge(p, &st); ++st.runs; (void)nt;
		if (st.samples.size() < 1 && !v.bad) st.samples.push_back(p.str());
		if (v.bad && getenv("SIM_ALL")) { printf("ALL %lld %s %s\n", (long long)i, v.kind.c_str(), one_line(v.msg).c_str()); fflush(stdout); continue; }
		if (!v.bad || kinds.count(v.kind)) continue;
		kinds.insert(v.kind);
		if (v.has_refined) p = v.refined;
		Verdict v2 = judge(p, 0);
		if (!v2.bad || v2.kind != v.kind) { ++st.counts["unreproducible_in_process"]; viol << "unstable " << v.kind << " " << one_line(v.msg) << "\n"; continue; }
		int steps = 0; Prog q = minimise(p, v, std::min(60.0, std::max(5.0, deadline - wall())), steps);
		Verdict vq = judge(q, 0); if (!vq.bad || vq.kind != v.kind) { q = p; vq = v2; }
		std::string f = rdir + "/" + prop + "-" + vq.kind + "-" + std::to_string((unsigned long long)rs) + ".txt";
		std::ostringstream rep; rep << "# property " << prop << ", violation kind " << vq.kind << ", base seed " << seed << ", run " << i << ", minimised in " << steps << " steps\n# " << one_line(vq.msg) << "\n# hash " << std::hex << vq.hash << std::dec << (v.hash == v2.hash ? "" : " (history hash differed between two runs)") << "\n" << q.str();
		spit(f, rep.str());
		viol << "violation " << f << " " << vq.kind << " " << std::hex << vq.hash << std::dec << " " << one_line(vq.msg) << "\n";
		if (++nviol >= 2) break;
	}
	if (cut) ++st.counts["stopped_by_wall_limit"];
	spit(dir + "/w" + std::to_string(w), st.dump());
	spit(dir + "/v" + std::to_string(w), viol.str());
}

int main(int argc, char** argv) {
	if (!getenv("SIM_NOASLR") && personality(0xffffffff) != -1 && !(personality(0xffffffff) & ADDR_NO_RANDOMIZE)) { if (personality(ADDR_NO_RANDOMIZE) != -1) { setenv("SIM_NOASLR", "1", 1); execv("/proc/self/exe", argv); } }
	std::string mode = argc > 1 ? argv[1] : "";
	if (mode == "replay" && argc > 2) return do_replay(argv[2]);
	if (mode == "show" && argc > 2) return do_show(argv[2], argc > 3 ? atoi(argv[3]) : -1);
	if (mode == "min" && argc > 2) { Prog p; if (!p.parse(slurp(argv[2]))) return 2; Verdict v = judge(p, 0); if (!v.bad) return 0; if (v.has_refined) p = v.refined; int st = 0; Prog q = minimise(p, v, 60, st); v = judge(q, 0); printf("# %s: %s\n%s", v.kind.c_str(), one_line(v.msg).c_str(), q.str().c_str()); return 1; }
	if (mode == "gen" && argc > 3) { printf("%s", generate(argv[2], mix(strtoull(argv[3], 0, 10), 1000003ull * (uint64_t)(argc > 4 ? atoll(argv[4]) : 0) + 17), false).str().c_str()); return 0; }
	if (mode != "run" || argc < 3) { printf("usage: run PROP [--seed S] [--runs N] [--workers W] [--wall SEC] [--thorough] [--out DIR] [--replays DIR] | replay FILE | gen PROP SEED [I]\n"); return 2; }
	std::string prop = argv[2], out = "/tmp", rdir = "/tmp"; uint64_t seed = 1; int64_t runs = -1; int nw = 8; double wl = 600; bool thorough = false; int64_t first = 0;
	for (int i = 3; i < argc; ++i) { std::string a = argv[i]; if (a == "--seed") seed = strtoull(argv[++i], 0, 10); else if (a == "--runs") runs = atoll(argv[++i]); else if (a == "--first") first = atoll(argv[++i]); else if (a == "--workers") nw = atoi(argv[++i]); else if (a == "--wall") wl = atof(argv[++i]); else if (a == "--thorough") thorough = true; else if (a == "--out") out = argv[++i]; else if (a == "--replays") rdir = argv[++i]; }
	if (runs < 0) runs = runs_of(prop, thorough);
	mkdir(out.c_str(), 0777); mkdir(rdir.c_str(), 0777);
	double t0 = wall(), deadline = t0 + wl; std::vector<pid_t> pids;
	for (int w = 0; w < nw; ++w) { pid_t p = fork(); if (p == 0) { worker(prop, seed, first, first + runs, w, nw, thorough, deadline, out, rdir); fflush(stdout); _exit(0); } pids.push_back(p); }
	bool broken = false; for (pid_t p : pids) { int s = 0; while (waitpid(p, &s, 0) < 0 && errno == EINTR) {} if (!WIFEXITED(s) || WEXITSTATUS(s)) { broken = true; fprintf(stderr, "worker died with %x\n", s); } }
	Stats st; std::string viol; for (int w = 0; w < nw; ++w) { st.merge_text(slurp(out + "/w" + std::to_string(w))); viol += slurp(out + "/v" + std::to_string(w)); unlink((out + "/w" + std::to_string(w)).c_str()); unlink((out + "/v" + std::to_string(w)).c_str()); }
	double dt = wall() - t0;
	// every violation must come back from its file in a process of its own
	std::istringstream vs(viol); std::string line; int nv = 0; std::ostringstream vj; std::set<std::string> seen;
	while (std::getline(vs, line)) {
		std::istringstream ls(line); std::string w, f, k, h; ls >> w;
		if (w != "violation") { printf("note: not reproducible, not reported: %s\n", line.c_str()); continue; }
		ls >> f >> k >> h; std::string m; std::getline(ls, m);
		if (seen.count(k)) { continue; } 
		bool rep = true; bool samehash = true;
		for (int j = 0; j < 2 && rep; ++j) {
			std::string cmd = std::string("/proc/self/exe"); int fd[2]; if (pipe(fd)) break; pid_t p = fork();
			if (p == 0) { dup2(fd[1], 1); close(fd[0]); execl("/proc/self/exe", "sim", "replay", f.c_str(), (char*)0); _exit(9); }
			close(fd[1]); std::string o; char b[4096]; ssize_t n; while ((n = read(fd[0], b, sizeof b)) > 0) o.append(b, n); close(fd[0]);
			int s = 0; waitpid(p, &s, 0); rep = WIFEXITED(s) && WEXITSTATUS(s) == 1 && o.find("kind=" + k) != std::string::npos;
			if (rep) { char want[64]; snprintf(want, sizeof want, "hash=%016llx", (unsigned long long)strtoull(h.c_str(), 0, 16)); if (o.find(want) == std::string::npos) samehash = false; }
		}
		if (!rep) { printf("note: not reproduced in a fresh process, not reported: %s %s\n", k.c_str(), f.c_str()); ++st.counts["unreproducible_in_fresh_process"]; continue; }
		seen.insert(k);
		printf("VIOLATION property=%s replay=%s\n  %s:%s%s\n", prop.c_str(), f.c_str(), k.c_str(), m.c_str(), samehash ? "" : " (same violation, different history hash on replay)"); ++nv;
	}
	std::ostringstream js; js << "{\"runs\":" << st.runs << ",\"wall_s\":" << dt << ",\"violations\":" << nv << ",\"stats\":" << st.str() << "}\n";
	spit(out + "/stats.json", js.str());
	printf("%s: %lld runs, %lld executions, %lld calls, %zu distinct behaviours, %lld non-trivial, %.1f s\n", prop.c_str(), (long long)st.runs, (long long)st.executions, (long long)st.calls, st.behaviours.size(), (long long)st.nontrivial, dt);
	if (nv) return 1;
	return broken ? 4 : 0;
}
