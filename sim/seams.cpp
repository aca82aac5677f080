#include "seams.hpp"
#include <cerrno>
#include <cstdlib>
#include <cstring>
#include <ctime>
#include <dlfcn.h>
#include <new>
#include <sys/time.h>
#include <time.h>

namespace sim {
int in_sut = 0;
Clock clk; Disk disk; Heap heap;
yield_fn yield_hook = 0;

int64_t Clock::read() {
	bool stalled = cfg.stall_from >= 0 && reads >= cfg.stall_from && reads < cfg.stall_to;
	if (stalled) ++fired_stalls;
	else {
		int64_t d = cfg.tick_us;
		if (cfg.rnd) { uint64_t z = mix(cfg.rnd, (uint64_t)reads); d = z % 16 == 0 ? d * (int64_t)(20 + (z >> 8) % 60) : z % 16 < 4 ? 0 : d * (int64_t)((z >> 8) % 4); }
		now_us += d; simulated_us += d;
	}
	for (size_t i = 0; i < cfg.jumps.size(); ++i)
		if (cfg.jumps[i].first == reads) { now_us += cfg.jumps[i].second; if (cfg.jumps[i].second > 0) simulated_us += cfg.jumps[i].second; ++fired_jumps; }
	++reads; ++total_reads;
	if (logging) log.push_back(now_us);
	return now_us;
}

// ------------------------------------------------------------------ disk
struct Stream { std::string name; int64_t pos; bool rd, wr, app; FileFault f; };

static ssize_t s_read(void* c, char* buf, size_t n) {
	Stream* s = (Stream*)c; Out guard; ++disk.reads;
	std::string& d = disk.files[s->name];
	int64_t avail = (int64_t)d.size() - s->pos; if (avail < 0) avail = 0;
	int64_t k = (int64_t)n < avail ? (int64_t)n : avail;
	if (s->f.kind == 2) {
		if (s->pos >= s->f.at) { ++disk.fired_eio; errno = s->f.err; return -1; }
		if (s->pos + k > s->f.at) k = s->f.at - s->pos;
	}
	if (s->f.kind == 3) { int64_t lim = s->f.at > 0 ? s->f.at : 1; if (k > lim) { k = lim; ++disk.fired_short; } }
	memcpy(buf, d.data() + s->pos, (size_t)k); s->pos += k;
	return k;
}
static ssize_t s_write(void* c, const char* buf, size_t n) {
	Stream* s = (Stream*)c; Out guard; ++disk.writes;
	if (s->f.kind == 5) { ++disk.fired_close; errno = s->f.err; return 0; }
	std::string& d = disk.files[s->name];
	if (s->app) s->pos = (int64_t)d.size();
	int64_t k = (int64_t)n;
	if (s->f.kind == 2 || s->f.kind == 4) {
		if (s->pos >= s->f.at) { if (s->f.kind == 2) ++disk.fired_eio; else ++disk.fired_enospc; errno = s->f.kind == 4 ? ENOSPC : s->f.err; return 0; }
		if (s->pos + k > s->f.at) k = s->f.at - s->pos;
	}
	if (s->f.kind == 3) { int64_t lim = s->f.at > 0 ? s->f.at : 1; if (k > lim) { k = lim; ++disk.fired_short; } }
	if (disk.capacity >= 0) { if (disk.capacity == 0) { ++disk.fired_enospc; errno = ENOSPC; return 0; } if (k > disk.capacity) k = disk.capacity; disk.capacity -= k; }
	if ((int64_t)d.size() < s->pos + k) d.resize((size_t)(s->pos + k));
	memcpy(&d[(size_t)s->pos], buf, (size_t)k); s->pos += k;
	return k;
}
static int s_seek(void* c, off64_t* off, int wh) {
	Stream* s = (Stream*)c; Out guard;
	int64_t base = wh == SEEK_SET ? 0 : wh == SEEK_CUR ? s->pos : (int64_t)disk.files[s->name].size();
	if (base + *off < 0) return -1;
	s->pos = base + *off; *off = s->pos; return 0;
}
static int s_close(void* c) { Out guard; delete (Stream*)c; --disk.open_now; return 0; }

FILE* open_stream(const std::string& name, const char* mode) {
	Out guard; ++disk.opens;
	FileFault f; if (disk.faults.count(name)) f = disk.faults[name];
	if (f.kind == 1) { ++disk.fired_open; errno = f.err; return 0; }
	bool plus = strchr(mode, '+') != 0; bool exists = disk.files.count(name) != 0;
	if (mode[0] == 'r' && !exists) { errno = ENOENT; return 0; }
	if (mode[0] == 'w') disk.files[name].clear();
	if (mode[0] == 'a' && !exists) disk.files[name].clear();
	Stream* s = new Stream(); s->name = name; s->pos = 0; s->rd = mode[0] == 'r' || plus; s->wr = mode[0] != 'r' || plus; s->app = mode[0] == 'a'; s->f = f;
	cookie_io_functions_t io; io.read = s_read; io.write = s_write; io.seek = s_seek; io.close = s_close;
	FILE* fp = fopencookie(s, mode, io);
	++disk.open_now;
	return fp;
}

// ------------------------------------------------------------------ heap
#ifndef SIM_ASAN
struct Hdr { uint64_t magic; size_t size; int arr; int sut; Hdr* qnext; uint64_t pad; };
static const uint64_t LIVE = 0x51A1C0DE11FEB10Cull, DEAD = 0xDEADB10CDEADB10Cull;
static const size_t TAIL = 32;
static Hdr *qhead = 0, *qtail = 0; static size_t qbytes = 0, qn = 0;

static void herr(const char* m) { if (!heap.error) heap.error = m; }

static void qpop() {
	Hdr* h = qhead; qhead = h->qnext; if (!qhead) qtail = 0;
	qbytes -= h->size; --qn;
	const unsigned char* p = (const unsigned char*)(h + 1);
	for (size_t i = 0; i < h->size; ++i) if (p[i] != 0xDB) { herr("write to released memory"); break; }
	h->magic = 0; ::free(h);
}
void heap_flush_quarantine() { while (qhead) qpop(); }
void heap_quarantine_check() {
	for (Hdr* h = qhead; h; h = h->qnext) { const unsigned char* p = (const unsigned char*)(h + 1); for (size_t i = 0; i < h->size; ++i) if (p[i] != 0xDB) { herr("write to released memory"); return; } }
}
static void* hnew(size_t n, int arr) {
	if (in_sut) {
		yield_point(1);
		int64_t k = heap.count++; ++heap.total;
		if (heap.fail_at >= 0 && (k == heap.fail_at || (heap.fail_persist && k > heap.fail_at))) { ++heap.fired; throw std::bad_alloc(); }
		if (heap.budget >= 0 && heap.count > heap.budget) throw StepBudgetExceeded();
		if (n > ((size_t)1 << 32)) throw std::bad_alloc();
	}
	Hdr* h = (Hdr*)::malloc(sizeof(Hdr) + n + TAIL);
	if (!h) throw std::bad_alloc();
	h->magic = LIVE; h->size = n; h->arr = arr; h->sut = in_sut > 0; h->qnext = 0;
	unsigned char* p = (unsigned char*)(h + 1);
	if (h->sut) {
		++heap.live; heap.live_bytes += (int64_t)n;
		uint64_t f = heap.fill; size_t i = 0; if (f == NOFILL) i = n & ~(size_t)7;      // left as it came, for valgrind
		for (; i + 8 <= n; i += 8) memcpy(p + i, &f, 8);
		if (i < n && f != NOFILL) memcpy(p + i, &f, n - i);
	}
	memset(p + n, 0xC7, TAIL);
	return p;
}
static void hdel(void* v, int arr) {
	if (!v) return;
	Hdr* h = (Hdr*)v - 1;
	if (h->magic == DEAD) { herr("memory released twice"); return; }
	if (h->magic != LIVE) { herr("release of memory that was never allocated or has been overwritten"); return; }
	unsigned char* p = (unsigned char*)v;
	for (size_t i = 0; i < TAIL; ++i) if (p[h->size + i] != 0xC7) { herr("write beyond the end of an allocation"); break; }
	if (h->sut && h->arr != arr) herr("array/scalar release mismatch");
	if (h->sut) {
		--heap.live; heap.live_bytes -= (int64_t)h->size;
		h->magic = DEAD; memset(p, 0xDB, h->size);
		h->qnext = 0; if (qtail) qtail->qnext = h; else qhead = h; qtail = h; qbytes += h->size; ++qn;
		while (qbytes > (size_t)4 << 20 || qn > 4096) qpop();
	} else { h->magic = 0; ::free(h); }
}
#else
// address-sanitizer build: its allocator does the checking, we only count, fill and inject failures
void heap_flush_quarantine() {}
void heap_quarantine_check() {}
static void* hnew(size_t n, int) {
	if (in_sut) {
		yield_point(1);
		int64_t k = heap.count++; ++heap.total;
		if (heap.fail_at >= 0 && (k == heap.fail_at || (heap.fail_persist && k > heap.fail_at))) { ++heap.fired; throw std::bad_alloc(); }
		if (heap.budget >= 0 && heap.count > heap.budget) throw StepBudgetExceeded();
		if (n > ((size_t)1 << 32)) throw std::bad_alloc();
	}
	void* p = ::malloc(n ? n : 1);
	if (!p) throw std::bad_alloc();
	if (in_sut && heap.fill != NOFILL) { uint64_t f = heap.fill; size_t i = 0; unsigned char* c = (unsigned char*)p; for (; i + 8 <= n; i += 8) memcpy(c + i, &f, 8); if (i < n) memcpy(c + i, &f, n - i); }
	return p;
}
static void hdel(void* v, int) { ::free(v); }
#endif
} // namespace sim

using namespace sim;
void* operator new(size_t n) { return hnew(n, 0); }
void* operator new[](size_t n) { return hnew(n, 1); }
void* operator new(size_t n, const std::nothrow_t&) noexcept { try { return hnew(n, 0); } catch (...) { return 0; } }
void* operator new[](size_t n, const std::nothrow_t&) noexcept { try { return hnew(n, 1); } catch (...) { return 0; } }
void operator delete(void* p) noexcept { hdel(p, 0); }
void operator delete[](void* p) noexcept { hdel(p, 1); }
void operator delete(void* p, size_t) noexcept { hdel(p, 0); }
void operator delete[](void* p, size_t) noexcept { hdel(p, 1); }

// ------------------------------------------------------------------ interposed C library entry points
extern "C" {
static bool seam_clock() { return in_sut > 0; }
int gettimeofday(struct timeval* tv, void*) {
	if (!seam_clock()) { struct timespec ts; static int (*real)(clockid_t, struct timespec*) = 0; if (!real) real = (int(*)(clockid_t, struct timespec*))dlsym(RTLD_NEXT, "clock_gettime"); real(CLOCK_REALTIME, &ts); tv->tv_sec = ts.tv_sec; tv->tv_usec = ts.tv_nsec / 1000; return 0; }
	yield_point(0);
	int64_t t; { Out g; t = clk.read(); }
	tv->tv_sec = t / 1000000; tv->tv_usec = t % 1000000; return 0;
}
int clock_gettime(clockid_t id, struct timespec* ts) {
	static int (*real)(clockid_t, struct timespec*) = 0; if (!real) real = (int(*)(clockid_t, struct timespec*))dlsym(RTLD_NEXT, "clock_gettime");
	if (!seam_clock()) return real(id, ts);
	yield_point(0);
	int64_t t; { Out g; t = clk.read(); }
	ts->tv_sec = t / 1000000; ts->tv_nsec = (t % 1000000) * 1000; return 0;
}
time_t time(time_t* p) {
	struct timespec ts; clock_gettime(CLOCK_REALTIME, &ts); if (p) *p = ts.tv_sec; return ts.tv_sec;
}
clock_t clock(void) {
	struct timespec ts; clock_gettime(CLOCK_PROCESS_CPUTIME_ID, &ts); return (clock_t)(ts.tv_sec * 1000000 + ts.tv_nsec / 1000);
}
FILE* fopen(const char* name, const char* mode) {
	static FILE* (*real)(const char*, const char*) = 0; if (!real) real = (FILE*(*)(const char*, const char*))dlsym(RTLD_NEXT, "fopen");
	if (in_sut && disk.active) { if (!name) { errno = EFAULT; return 0; } return open_stream(name, mode); }
	return real(name, mode);
}
FILE* fopen64(const char* name, const char* mode) { return fopen(name, mode); }
}
