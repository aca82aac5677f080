// Execution of programs against the real solver classes inside the simulator, and the record of what was observed.
#pragma once
#include <map>
#include <string>
#include <vector>
#include "prog.hpp"
#include "qpgen.hpp"
#include "seams.hpp"

namespace sim {

struct Obs {                           // everything the public interface shows of a session
	bool have = false;
	int simple = 0, status = 0, init = 0, solved = 0, infeas = 0, unb = 0, htype = 0, reg = 0, rcx = -1, rcy = -1, plevel = 0;
	int nv = 0, nc = 0, nfr = 0, nfx = 0, nfv = 0, nec = 0, nac = 0, niac = 0, nz = 0, incons = 0;     // incons: 1 separate working-set getters, 2 free-variable flags, 4 index lists, 8 type counts disagree
	int64_t count = 0;
	double obj = 0;
	std::vector<double> x, y, ws;
	std::vector<int> bst, cst;         // status from the working-set objects
	std::vector<int> fr, fx, ac, iac;  // index lists from the working-set objects
	void hash(Hash& h) const;
	std::string diff(const Obs& o) const;    // "" when equal bit for bit
};

struct Rec {
	int op = -1; std::string name; int sess = -1; char cls = 0;
	bool called = false;               // the call was made
	int exc = 0;                       // 0 none, 1 bad_alloc, 2 budget exceeded, 3 anything else
	int rc = -999; int64_t nin = 0, nout = 0; double cin = -1, cout_ = -1;
	bool hasqp = false; QPSpec q;      // the QP handed over in this call
	std::vector<double> dv; std::vector<int64_t> iv;   // op specific outputs
	std::string text;
	int argmod = 0;                    // caller data modified
	int64_t allocs = 0, clkreads = 0, calls = 0, faults = 0;
	int64_t ck_start = 0, ck_end = 0;  // clock at first and last read of the call
	std::vector<int64_t> cklog;
	std::vector<double> opt, asked;    // option set in force afterwards, option set handed over (C24)
	Obs o;
	void hash(Hash& h, bool withTime) const;
};

enum { F_ALLOC = 0, F_JUMP, F_STALL, F_OPEN, F_EIO, F_SHORT, F_NOSPC, F_CLOSE, F_CALLBACK, F_LINSOL, F_BUDGET, F_TIMELIM, F_CORRUPT, F_SWITCH, F_GARBAGE, F_STREAM, F_CRASH, F_STALE, F_N };
extern const char* fault_names[F_N];

struct Trace {
	std::vector<Rec> recs;
	std::string heap_error;            // first heap misuse
	int64_t heap_base = 0;             // blocks that stay for good (not packed)
	int64_t leaked = 0;                // blocks of code under test alive after everything was destroyed
	int64_t fired[F_N];
	int64_t sim_us = 0;
	int signal = 0, at_op = -1; bool hang = false;     // the execution died
	uint64_t sched = 0; int64_t switches = 0;
	std::map<std::string, std::string> files;
	Trace() { for (int i = 0; i < F_N; ++i) fired[i] = 0; }
	bool died() const { return signal != 0 || hang; }
	uint64_t hash(bool withTime = true) const;
};

struct Variant {                       // how a program is executed
	uint64_t fill = 0xDDDDDDDDDDDDDDDDull;
	int plevel = 0;                    // print level
	int stream = 0;                    // 0 /dev/null 1 failing stream 2 in-memory stream 3 full disk
	bool quiet = false;                // no observations except after the last call of each session
	bool noobsops = false;             // leave out observation operations
	int64_t tick = -1, start = -1; uint64_t tickrnd = 0;     // clock override
	int only = -1;                     // only ops of that session
	bool interleave = false; uint64_t schedseed = 0; int switchpct = 10;
	int64_t alloc_at = -1; int alloc_op = -1;
	bool nocpu = false;                // drop time limits
	bool keepfiles = false;
	bool mex = false;                  // go through the MEX interfaces instead of the classes
	bool opts = false;                 // record the options in force
	bool capi = false;                 // go through the C interface instead of the classes
};

// run in a child process of its own; never throws
Trace run_isolated(const Prog& p, const Variant& v);
// the actual execution (in the current process)
void run_here(const Prog& p, const Variant& v, Trace& t, volatile int* progress);

QPSpec spec_of(const Op& o, int nv, int nc);
std::string pack(const Trace& t);
bool unpack(const std::string& s, Trace& t);

// options as numbers: a name and the admissible range of each
struct OptField { const char* name; int kind; };       // kind: 0 anything, 1 >= 0, 2 > 0, 3 >= 1.1, 4 > boundRelaxation, 5 print level
extern const std::vector<OptField> opt_fields;
int opt_index(const char* name);

const char* rc_name(int rc);
// return codes of the code under test
extern const int RC_MAX, RC_INF_HOT, RC_INF_INIT, RC_UNB_HOT, RC_UNB_INIT;
inline bool rc_inf(int rc) { return rc == RC_INF_HOT || rc == RC_INF_INIT; }
inline bool rc_unb(int rc) { return rc == RC_UNB_HOT || rc == RC_UNB_INIT; }
} // namespace sim
