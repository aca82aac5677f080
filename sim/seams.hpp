// Seams the simulator owns: clock, disk, heap, scheduling.  No dependency on the code under test.
#pragma once
#include <cstdint>
#include <cstdio>
#include <cstddef>
#include <map>
#include <string>
#include <vector>

namespace sim {

// ---------------------------------------------------------------- randomness
struct Rng {
	uint64_t s;
	explicit Rng(uint64_t seed = 1) : s(seed * 0x9E3779B97F4A7C15ull + 0xD1B54A32D192ED03ull) { next(); next(); }
	uint64_t next() { uint64_t z = (s += 0x9E3779B97F4A7C15ull); z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull; z = (z ^ (z >> 27)) * 0x94D049BB133111EBull; return z ^ (z >> 31); }
	int64_t range(int64_t lo, int64_t hi) { return lo + (int64_t)(next() % (uint64_t)(hi - lo + 1)); }
	double u01() { return (double)(next() >> 11) * (1.0 / 9007199254740992.0); }
	double uni(double a, double b) { return a + (b - a) * u01(); }
	bool chance(double p) { return u01() < p; }
	double sgn() { return (next() & 1) ? 1.0 : -1.0; }
};
inline uint64_t mix(uint64_t a, uint64_t b) { Rng r(a ^ (b * 0xA24BAED4963EE407ull + 0x9FB21C651E98DF25ull)); return r.next(); }
struct Hash {
	uint64_t h = 1469598103934665603ull;
	void add(uint64_t v) { for (int i = 0; i < 8; ++i) { h ^= (v >> (8 * i)) & 0xff; h *= 1099511628211ull; } }
	void bytes(const void* p, size_t n) { const unsigned char* c = (const unsigned char*)p; for (size_t i = 0; i < n; ++i) { h ^= c[i]; h *= 1099511628211ull; } }
	void str(const std::string& s) { add(s.size()); bytes(s.data(), s.size()); }
	void dbl(double d) { uint64_t b; __builtin_memcpy(&b, &d, 8); if (d != d) b = 0x7ff8000000000000ull; add(b); }
};

// ---------------------------------------------------------------- "in code under test" marker
extern int in_sut;                       // >0 while code under test is on the stack
struct Sut { Sut() { ++in_sut; } ~Sut() { --in_sut; } };
struct Out { int keep; Out() : keep(in_sut) { in_sut = 0; } ~Out() { in_sut = keep; } };  // callback back into the simulator

// ---------------------------------------------------------------- clock
struct ClockCfg {
	int64_t start_us = 1000000000000ll;
	int64_t tick_us = 7;                 // advance per read
	uint64_t rnd = 0;                    // >0: advances vary randomly between none and many ticks
	std::vector<std::pair<int64_t,int64_t> > jumps;   // (read number within call, microseconds added before that read)
	int64_t stall_from = -1, stall_to = -1;           // reads during which the clock does not advance
};
struct Clock {
	int64_t now_us = 1000000000000ll;
	ClockCfg cfg;
	int64_t reads = 0;                   // reads since last arm()
	int64_t total_reads = 0, fired_jumps = 0, fired_stalls = 0;
	int64_t simulated_us = 0;
	std::vector<int64_t> log; bool logging = false;   // every value returned since arm()
	void arm(const ClockCfg& c) { cfg = c; reads = 0; log.clear(); }
	int64_t read();
};
extern Clock clk;

// ---------------------------------------------------------------- disk
struct FileFault {
	int kind = 0;            // 0 none 1 open fails 2 EIO at byte 3 short transfers 4 ENOSPC at byte 5 close/flush fails
	int64_t at = 0;          // byte position
	int err = 5;
};
struct Disk {
	bool active = false;
	std::map<std::string, std::string> files;
	std::map<std::string, FileFault> faults;
	int64_t capacity = -1;               // free bytes on the disk (-1: unlimited)
	int64_t opens = 0, reads = 0, writes = 0, fired_open = 0, fired_eio = 0, fired_short = 0, fired_enospc = 0, fired_close = 0, open_now = 0;
	void reset() { *this = Disk(); }
};
extern Disk disk;
FILE* open_stream(const std::string& name, const char* mode);   // as the code under test would get it

// ---------------------------------------------------------------- heap
const uint64_t NOFILL = 0xFEEDFACEFEEDFACEull;
struct Heap {
	uint64_t fill = 0xDDDDDDDDDDDDDDDDull; // 8-byte pattern for fresh memory
	int64_t fail_at = -1;                // fail the k-th allocation of code under test since arm() (0-based)
	bool fail_persist = false;           // keep failing afterwards
	int64_t count = 0;                   // allocations by code under test since arm()
	int64_t total = 0, fired = 0;
	int64_t live = 0, live_bytes = 0;    // blocks owned by code under test
	int64_t budget = -1;                 // abort the call after that many allocations (hang guard)
	const char* error = 0;               // first heap error found
	void arm(int64_t at, bool persist) { fail_at = at; fail_persist = persist; count = 0; }
};
extern Heap heap;
void heap_quarantine_check();            // verifies all quarantined blocks are untouched
void heap_flush_quarantine();

struct StepBudgetExceeded {};

// ---------------------------------------------------------------- scheduling
typedef void (*yield_fn)(int site);
extern yield_fn yield_hook;              // called at clock reads (0), allocations (1), callbacks (2)
inline void yield_point(int site) { if (yield_hook && in_sut) yield_hook(site); }

} // namespace sim
