// Generation and judgement of simulated executions.
#pragma once
#include <map>
#include <set>
#include <string>
#include <vector>
#include "exec.hpp"

namespace sim {
struct Stats {
	int64_t runs = 0, nontrivial = 0, executions = 0, calls = 0, sim_us = 0, clean_runs = 0, faulty_runs = 0, switches = 0;
	int64_t fired[F_N];
	std::map<std::string, int64_t> outcomes;      // what calls ended in
	std::map<std::string, int64_t> counts;        // property specific measures
	std::set<uint64_t> behaviours;                // distinct behaviours of non-trivial runs
	std::set<uint64_t> schedules;                 // distinct interleavings
	std::vector<std::string> samples;
	Stats() { for (int i = 0; i < F_N; ++i) fired[i] = 0; }
	void add(const Trace& t);                     // every execution
	void run(const Trace& t);                     // the main execution of a run: trivial or not, behaviour
	void run(uint64_t behaviour, bool nontriv);
	std::string str() const;                      // JSON
	std::string dump() const;                     // for merge_text
	void merge_text(const std::string& s);
};
struct Verdict {
	bool bad = false; std::string kind, msg; int op = -1; uint64_t hash = 0;
	bool has_refined = false; Prog refined;       // the single failing execution out of an enumeration
	static Verdict ok(uint64_t h = 0) { Verdict v; v.hash = h; return v; }
	static Verdict fail(const std::string& k, int op, const std::string& m, uint64_t h) { Verdict v; v.bad = true; v.kind = k; v.op = op; v.msg = m; v.hash = h; return v; }
};
Prog generate(const std::string& prop, uint64_t seed, bool thorough);
Verdict judge(const Prog& p, Stats* st);
const char* rule_of(const std::string& prop);
int64_t runs_of(const std::string& prop, bool thorough);

// ---- shared pieces (core.cpp)
uint64_t behaviour_of(const Trace& t);
bool nontrivial(const Trace& t);
Verdict died(const Prog& p, const Trace& t);          // crash, hang, heap misuse, unexpected exception
enum { CK_SUCCESS = 1, CK_MUST = 2, CK_VERDICT = 4, CK_FLAGS = 8, CK_WS = 16, CK_BUDGET = 32, CK_ARGS = 64, CK_LEAK = 128, CK_TIME = 256, CK_CB = 512, CK_EQP = 1024, CK_ALL = 0xffff };
Verdict check_trace(const Prog& p, const Trace& t, int what, Stats* st);
std::string rec_diff(const Rec& a, const Rec& b, bool ignore_count);   // "" if both calls ended the same way
} // namespace sim
