#include "exec.hpp"
#include <qpOASES.hpp>
#ifdef SIM_CAPI
USING_NAMESPACE_QPOASES
extern "C" {
#include "qpOASES_wrapper.h"
}
#endif
#include <cerrno>
#include <cstring>
#include <memory>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <ucontext.h>
#include <unistd.h>
#include <fcntl.h>
#include <csignal>
#include "linsol.hpp"
#ifdef SIM_MEX
#include "mexstub.hpp"
#endif
#ifdef SIM_BLK
#include "blkstub.hpp"
#endif

using namespace qpOASES;
namespace sim {

const char* fault_names[F_N] = {"allocation_failure", "clock_jump", "clock_stall", "file_open_failure", "read_or_write_error", "short_transfer", "disk_full", "close_failure",
	"callback_failure", "linear_solver_failure", "iteration_budget_cut", "time_limit_cut", "file_corruption", "session_switch", "memory_garbage", "message_stream_failure", "crash_restart", "stale_restart_data"};

const int RC_MAX = RET_MAX_NWSR_REACHED, RC_INF_HOT = RET_HOTSTART_STOPPED_INFEASIBILITY, RC_INF_INIT = RET_INIT_FAILED_INFEASIBILITY, RC_UNB_HOT = RET_HOTSTART_STOPPED_UNBOUNDEDNESS, RC_UNB_INIT = RET_INIT_FAILED_UNBOUNDEDNESS;
static uint64_t dbits(double d) { uint64_t b; memcpy(&b, &d, 8); if (d != d) b = 0x7ff8000000000000ull; return b; }

void Obs::hash(Hash& h) const {
	h.add(have); if (!have) return;
	int iv[] = {simple, status, init, solved, infeas, unb, htype, reg, rcx, rcy, nv, nc, nfr, nfx, nfv, nec, nac, niac, nz, incons};
	for (int v : iv) h.add((uint64_t)v);
	h.add((uint64_t)count); h.dbl(obj);
	for (double d : x) h.dbl(d); for (double d : y) h.dbl(d); for (double d : ws) h.dbl(d);
	for (int v : bst) h.add(v); for (int v : cst) h.add(v);
	for (int v : fr) h.add(v); for (int v : fx) h.add(v); for (int v : ac) h.add(v); for (int v : iac) h.add(v);
}
std::string Obs::diff(const Obs& o) const {
	char buf[200];
#define CMP(f) if (f != o.f) { snprintf(buf, sizeof buf, #f " is %ld instead of %ld", (long)f, (long)o.f); return buf; }
	CMP(have) if (!have) return "";
	CMP(status) CMP(init) CMP(solved) CMP(infeas) CMP(unb) CMP(simple) CMP(htype) CMP(reg) CMP(nv) CMP(nc) CMP(nfr) CMP(nfx) CMP(nfv) CMP(nec) CMP(nac) CMP(niac) CMP(nz) CMP(incons) CMP(count) CMP(rcx) CMP(rcy)
#undef CMP
	if (dbits(obj) != dbits(o.obj)) { snprintf(buf, sizeof buf, "objective is %.17g instead of %.17g", obj, o.obj); return buf; }
#define VEC(f, what) for (size_t i = 0; i < f.size(); ++i) if (i >= o.f.size() || dbits((double)f[i]) != dbits((double)o.f[i])) { snprintf(buf, sizeof buf, what "[%d] is %.17g instead of %.17g", (int)i, (double)f[i], i < o.f.size() ? (double)o.f[i] : 0.0); return buf; }
	VEC(x, "x") VEC(y, "y") VEC(ws, "working set") VEC(bst, "bound status") VEC(cst, "constraint status") VEC(fr, "free list") VEC(fx, "fixed list") VEC(ac, "active list") VEC(iac, "inactive list")
#undef VEC
	return "";
}
void Rec::hash(Hash& h, bool t) const {
	h.add(op); h.str(name); h.add((uint64_t)sess); h.add(called); h.add(exc); h.add((uint64_t)(int64_t)rc); h.add((uint64_t)nin); h.add((uint64_t)nout);
	if (t) { h.dbl(cin); h.dbl(cout_); h.add(clkreads); for (int64_t v : cklog) h.add(v); h.add(allocs); }
	for (double d : dv) h.dbl(d); for (int64_t d : iv) h.add(d); h.str(text); h.add(argmod); h.add(calls); for (double d : opt) h.dbl(d); for (double d : asked) h.dbl(d); o.hash(h);
}
uint64_t Trace::hash(bool t) const {
	Hash h; for (auto& r : recs) r.hash(h, t);
	h.str(heap_error); h.add(leaked); h.add(signal); h.add(hang); h.add(at_op); h.add(sched);
	if (t) for (int i = 0; i < F_N; ++i) h.add(fired[i]);
	for (auto& f : files) { h.str(f.first); h.str(f.second); }
	return h.h;
}

// ------------------------------------------------------------------ serialisation of traces
struct W { std::string s; void u(uint64_t v) { s.append((char*)&v, 8); } void d(double v) { s.append((char*)&v, 8); } void st(const std::string& v) { u(v.size()); s += v; }
	template <class T> void v(const std::vector<T>& a) { u(a.size()); if (a.size()) s.append((const char*)&a[0], a.size() * sizeof(T)); } };
struct R { const char* p; const char* e; bool bad = false; uint64_t u() { uint64_t v = 0; if (e - p < 8) { bad = true; return 0; } memcpy(&v, p, 8); p += 8; return v; } double d() { uint64_t b = u(); double v; memcpy(&v, &b, 8); return v; }
	std::string st() { uint64_t n = u(); if (bad || (uint64_t)(e - p) < n) { bad = true; return ""; } std::string r(p, n); p += n; return r; }
	template <class T> void v(std::vector<T>& a) { uint64_t n = u(); if (bad || (uint64_t)(e - p) < n * sizeof(T)) { bad = true; return; } a.resize(n); if (n) memcpy(&a[0], p, n * sizeof(T)); p += n * sizeof(T); } };

static const int OBS_INTS = 21;
static void obs_ints(Obs& o, int* (&p)[OBS_INTS]) { int* q[OBS_INTS] = {&o.simple, &o.status, &o.init, &o.solved, &o.infeas, &o.unb, &o.htype, &o.reg, &o.rcx, &o.rcy, &o.plevel, &o.nv, &o.nc, &o.nfr, &o.nfx, &o.nfv, &o.nec, &o.nac, &o.niac, &o.nz, &o.incons}; memcpy(p, q, sizeof q); }
static void put(W& w, const Rec& r) {
	w.u(r.op); w.st(r.name); w.u(r.sess); w.u(r.cls); w.u(r.called); w.u(r.exc); w.u((int64_t)r.rc); w.u(r.nin); w.u(r.nout); w.d(r.cin); w.d(r.cout_); w.u(r.hasqp);
	w.s.append((const char*)&r.q, sizeof r.q); w.v(r.dv); w.v(r.iv); w.st(r.text); w.u(r.argmod); w.u(r.allocs); w.u(r.clkreads); w.u(r.calls); w.u(r.faults); w.u(r.ck_start); w.u(r.ck_end); w.v(r.cklog); w.v(r.opt); w.v(r.asked);
	Obs o = r.o; w.u(o.have); int* p[OBS_INTS]; obs_ints(o, p); for (int i = 0; i < OBS_INTS; ++i) w.u((int64_t)*p[i]);
	w.u(o.count); w.d(o.obj); w.v(o.x); w.v(o.y); w.v(o.ws); w.v(o.bst); w.v(o.cst); w.v(o.fr); w.v(o.fx); w.v(o.ac); w.v(o.iac);
}
static void get(R& w, Rec& r) {
	r.op = w.u(); r.name = w.st(); r.sess = w.u(); r.cls = w.u(); r.called = w.u(); r.exc = w.u(); r.rc = (int)w.u(); r.nin = w.u(); r.nout = w.u(); r.cin = w.d(); r.cout_ = w.d(); r.hasqp = w.u();
	if (w.e - w.p < (long)sizeof r.q) { w.bad = true; return; } memcpy((void*)&r.q, w.p, sizeof r.q); w.p += sizeof r.q;
	w.v(r.dv); w.v(r.iv); r.text = w.st(); r.argmod = w.u(); r.allocs = w.u(); r.clkreads = w.u(); r.calls = w.u(); r.faults = w.u(); r.ck_start = w.u(); r.ck_end = w.u(); w.v(r.cklog); w.v(r.opt); w.v(r.asked);
	Obs& o = r.o; o.have = w.u(); int* p[OBS_INTS]; obs_ints(o, p); for (int i = 0; i < OBS_INTS; ++i) *p[i] = (int)w.u();
	o.count = w.u(); o.obj = w.d(); w.v(o.x); w.v(o.y); w.v(o.ws); w.v(o.bst); w.v(o.cst); w.v(o.fr); w.v(o.fx); w.v(o.ac); w.v(o.iac);
}
std::string pack(const Trace& t) {
	W w; w.u(t.recs.size()); for (auto& r : t.recs) put(w, r);
	w.st(t.heap_error); w.u(t.leaked); for (int i = 0; i < F_N; ++i) w.u(t.fired[i]); w.u(t.sim_us); w.u(t.signal); w.u(t.at_op); w.u(t.hang); w.u(t.sched); w.u(t.switches);
	w.u(t.files.size()); for (auto& f : t.files) { w.st(f.first); w.st(f.second); }
	return w.s;
}
bool unpack(const std::string& s, Trace& t) {
	R r; r.p = s.data(); r.e = r.p + s.size(); t = Trace();
	uint64_t n = r.u(); for (uint64_t i = 0; i < n && !r.bad; ++i) { Rec x; get(r, x); t.recs.push_back(x); }
	t.heap_error = r.st(); t.leaked = r.u(); for (int i = 0; i < F_N; ++i) t.fired[i] = r.u(); t.sim_us = r.u(); t.signal = r.u(); t.at_op = (int)r.u(); t.hang = r.u(); t.sched = r.u(); t.switches = r.u();
	n = r.u(); for (uint64_t i = 0; i < n && !r.bad; ++i) { std::string k = r.st(); t.files[k] = r.st(); }
	return !r.bad;
}

const char* rc_name(int rc) { static char b[32]; if (rc == 0) return "success"; if (rc == (int)RET_MAX_NWSR_REACHED) return "iteration/time limit reached"; if (rc == RET_HOTSTART_STOPPED_INFEASIBILITY || rc == RET_INIT_FAILED_INFEASIBILITY) return "infeasible"; if (rc == RET_HOTSTART_STOPPED_UNBOUNDEDNESS || rc == RET_INIT_FAILED_UNBOUNDEDNESS) return "unbounded"; snprintf(b, sizeof b, "return value %d", rc); return b; }

// ------------------------------------------------------------------ options as numbers
#define OPT_FIELDS(F) F(enableRamping, BooleanType, 0) F(enableFarBounds, BooleanType, 0) F(enableFlippingBounds, BooleanType, 0) F(enableRegularisation, BooleanType, 0) F(enableFullLITests, BooleanType, 0) F(enableNZCTests, BooleanType, 0) \
	F(enableDriftCorrection, int_t, 1) F(enableCholeskyRefactorisation, int_t, 1) F(enableEqualities, BooleanType, 0) F(terminationTolerance, real_t, 2) F(boundTolerance, real_t, 2) F(boundRelaxation, real_t, 2) F(epsNum, real_t, 0) F(epsDen, real_t, 0) \
	F(maxPrimalJump, real_t, 2) F(maxDualJump, real_t, 2) F(initialRamping, real_t, 1) F(finalRamping, real_t, 1) F(initialFarBounds, real_t, 4) F(growFarBounds, real_t, 3) F(initialStatusBounds, SubjectToStatus, 0) F(epsFlipping, real_t, 2) \
	F(numRegularisationSteps, int_t, 1) F(epsRegularisation, real_t, 2) F(numRefinementSteps, int_t, 1) F(epsIterRef, real_t, 2) F(epsLITests, real_t, 1) F(epsNZCTests, real_t, 1) F(rcondSMin, real_t, 0) F(enableInertiaCorrection, BooleanType, 0) \
	F(enableDropInfeasibles, BooleanType, 0) F(dropBoundPriority, int_t, 0) F(dropEqConPriority, int_t, 0) F(dropIneqConPriority, int_t, 0) F(printLevel, PrintLevel, 5)
#define F(n, t, k) {#n, k},
const std::vector<OptField> opt_fields = {OPT_FIELDS(F)};
#undef F
int opt_index(const char* name) { for (size_t i = 0; i < opt_fields.size(); ++i) if (!strcmp(opt_fields[i].name, name)) return (int)i; return -1; }
static std::vector<double> opt_values(const Options& o) {
	std::vector<double> v; v.reserve(opt_fields.size());
#define F(n, t, k) v.push_back((double)o.n);
	OPT_FIELDS(F)
#undef F
	return v;
}
// any subset of the fields gets any value a program might put there, many of them inadmissible
static void opt_scramble(Options& o, uint64_t seed) {
	Rng r(seed); double pr = r.chance(0.3) ? 0.4 : 0.12;
	auto real = [&](double old, double u, int64_t z) -> double { switch (z % 8) { case 0: return 0.0; case 1: return -old; case 2: return old * 10; case 3: return old * 0.1; case 4: return -1e-3 * u; case 5: return old * (1 + u); case 6: return u * 2; default: return old * 100; } };
	const PrintLevel keep = o.printLevel;
#define F(n, t, k) { bool hit = r.chance(pr); int64_t z = r.range(0, 1000000); double u = 0.001 * (double)r.range(1, 1000); if (hit) { if (!strcmp(#t, "BooleanType")) o.n = (t)(z & 1); else if (!strcmp(#t, "SubjectToStatus")) o.n = (t)(z % 3 - 1); else if (!strcmp(#t, "real_t")) o.n = (t)real((double)o.n, u, z); else o.n = (t)(z % 9 - 2); } }
	OPT_FIELDS(F)
#undef F
	o.printLevel = keep;
}

// ------------------------------------------------------------------ QP specs
QPSpec spec_of(const Op& o, int nv, int nc) {
	QPSpec s; s.mseed = o.u("m", 1); s.vseed = o.u("v", 1); s.nv = nv; s.nc = nc; s.hk = (int)o.i("hk", 0); s.vk = (int)o.i("vk", 0);
	s.sparse = (int)o.i("sp", 0); s.fin = (int)o.i("fin", 60); s.act = (int)o.i("act", 50); s.eq = (int)o.i("eq", 15); s.spread = (int)o.i("spr", 0);
	return s;
}

// ------------------------------------------------------------------ sessions
struct MatData {                       // matrix data lent to a session; lives until the end of the execution
	std::vector<double> H, A, H0, A0;
	SymmetricMatrix* Hm = 0; Matrix* Am = 0;
	~MatData() { Sut g; delete Hm; delete Am; }
};
struct Callback : public ConstraintProduct {
	int nv, nc; const std::vector<double>* A; int64_t fail_at; bool persist; int64_t count, fired; bool bad_index; int err;
	std::vector<double> lastx; bool havex;
	Callback() : nv(0), nc(0), A(0), fail_at(-1), persist(false), count(0), fired(0), bad_index(false), err(1), havex(false) {}
	virtual int_t operator()(int_t i, const real_t* const x, real_t* const v) const {
		yield_point(2);
		Out g; Callback* me = const_cast<Callback*>(this);
		int64_t k = me->count++;
		if (i < 0 || i >= nc || !x || !v) { me->bad_index = true; return 99; }
		if (fail_at >= 0 && (k == fail_at || (persist && k > fail_at))) { ++me->fired; return err; }
		double s = 0; for (int j = 0; j < nv; ++j) s += (*A)[i * nv + j] * x[j];
		*v = s; me->lastx.assign(x, x + nv); me->havex = true;
		return 0;
	}
};
struct Sess {
	int id = 0; char cls = 'Q'; int nv = 0, nc = 0;
	QProblemB* b = 0; QProblem* q = 0; SQProblem* s = 0; SQProblemSchur* z = 0;
	QPSpec m; bool hasm = false;
	std::shared_ptr<Callback> cb;
	std::vector<double> sx, sy; Bounds sb; Constraints sc; bool saved = false, ssok = false;
	std::vector<double> lx, ly;      // last known point
	int ob = 0; uint64_t os = 0; int ht = 6; bool hnull = false, rows = false;
};

struct Arr {                           // a vector lent for the duration of one call
	double* p = 0; size_t n = 0; std::vector<double> orig; bool null = true;
	void init(const std::vector<double>& v) { n = v.size(); orig = v; p = new double[n ? n : 1]; for (size_t i = 0; i < n; ++i) p[i] = v[i]; null = false; }
	double* get() { return null ? 0 : p; }
	bool same() const { return null || memcmp(p, orig.data(), n * sizeof(double)) == 0; }
	bool done() { if (null) return true; bool ok = memcmp(p, orig.data(), n * sizeof(double)) == 0; for (size_t i = 0; i < n; ++i) { uint64_t b = 0x7ff8dead00000000ull; memcpy(p + i, &b, 8); } delete[] p; null = true; return ok; }
};

// leaves controlled garbage where the code under test will have its local variables
static void __attribute__((noinline)) dirty_stack(uint64_t f) { if (f == NOFILL) return; volatile uint64_t a[12288]; for (size_t i = 0; i < sizeof a / 8; ++i) a[i] = f; }

#ifdef SIM_MEX
#include "exec_mex.hpp"
#endif
#ifdef SIM_BLK
#include "exec_blk.hpp"
#endif
struct World {
	const Prog& prog; const Variant& var; Trace& tr; volatile int* progress;
	std::map<int, Sess*> S; std::vector<std::unique_ptr<MatData> > mats; std::vector<std::shared_ptr<Callback> > cbs;
	FILE* msg = 0; std::vector<int> lastop;
	World(const Prog& p, const Variant& v, Trace& t, volatile int* pr) : prog(p), var(v), tr(t), progress(pr) {}

	void setup_stream() {
		getGlobalMessageHandler();
		if (var.stream == 0) return;
		disk.files["messages"] = "";
		FileFault f; if (var.stream == 1) { f.kind = 2; f.at = 0; f.err = EIO; disk.faults["messages"] = f; } else if (var.stream == 3) { f.kind = 4; f.at = 200; disk.faults["messages"] = f; }
		msg = open_stream("messages", "w");
		setvbuf(msg, 0, var.stream == 1 ? _IONBF : _IOLBF, 256);
		getGlobalMessageHandler()->setOutputFile(msg);
	}
	void close_stream() {
		if (!msg) return;
		getGlobalMessageHandler()->setOutputFile(stdout);
		fclose(msg); msg = 0; disk.files.erase("messages"); disk.faults.erase("messages");
	}

	Options make_options(int ob, uint64_t os) {
		Options o;
		if (ob == 1) o.setToMPC(); else if (ob == 2) o.setToReliable(); else if (ob == 3) o.setToFast(); else o.setToDefault();
		if (os) {
			Rng r(os);
			#define MAYBE(x) { bool t = r.chance(0.3); uint64_t z = r.next(); if (t) { x; } (void)z; }
			MAYBE(o.enableRamping = (z & 1) ? BT_TRUE : BT_FALSE)
			{ bool t = r.chance(0.3); uint64_t z = r.next(); (void)z; (void)t; }
			MAYBE(o.enableFlippingBounds = (z & 1) ? BT_TRUE : BT_FALSE)
			MAYBE(o.enableRegularisation = (z & 1) ? BT_TRUE : BT_FALSE)
			MAYBE(o.enableFullLITests = (z & 1) ? BT_TRUE : BT_FALSE)
			MAYBE(o.enableNZCTests = (z & 1) ? BT_TRUE : BT_FALSE)
			MAYBE(o.enableDriftCorrection = (int_t)(z % 4 == 0 ? 0 : z % 4))
			MAYBE(o.enableCholeskyRefactorisation = (int_t)(z % 4))
			MAYBE(o.enableEqualities = (z & 1) ? BT_TRUE : BT_FALSE)
			MAYBE(o.numRefinementSteps = (int_t)(z % 4))
			MAYBE(o.initialStatusBounds = (z % 3 == 0) ? ST_INACTIVE : (z % 3 == 1 ? ST_LOWER : ST_UPPER))
			MAYBE(o.numRegularisationSteps = (int_t)(z % 3))
			#undef MAYBE
		}
		if (os >= 2000000) {               // anything a caller can set, sensible or not
			Rng r(os + 5);
			#define MAYBE(x) { bool t = r.chance(0.2); uint64_t z = r.next(); if (t) { x; } (void)z; }
			#define SCALE(f) MAYBE(o.f = o.f * std::pow(10.0, (double)((int)(z % 9)) - 4.0))
			MAYBE(o.enableFarBounds = (z & 1) ? BT_TRUE : BT_FALSE) MAYBE(o.enableDropInfeasibles = (z & 1) ? BT_TRUE : BT_FALSE) MAYBE(o.dropBoundPriority = (int_t)(z % 4)) MAYBE(o.dropEqConPriority = (int_t)(z % 4)) MAYBE(o.dropIneqConPriority = (int_t)(z % 4))
			SCALE(terminationTolerance) SCALE(boundTolerance) SCALE(boundRelaxation) SCALE(epsNum) SCALE(epsDen) SCALE(maxPrimalJump) SCALE(maxDualJump) SCALE(initialFarBounds) SCALE(growFarBounds) SCALE(epsFlipping) SCALE(epsRegularisation) SCALE(epsIterRef) SCALE(epsLITests) SCALE(epsNZCTests)
			MAYBE(o.initialRamping = 0.1 * (double)(z % 15)) MAYBE(o.finalRamping = 0.1 * (double)(z % 15)) MAYBE(o.numRegularisationSteps = (int_t)(z % 6) - 1) MAYBE(o.numRefinementSteps = (int_t)(z % 8) - 1) MAYBE(o.enableDriftCorrection = (int_t)(z % 5) - 1) MAYBE(o.enableCholeskyRefactorisation = (int_t)(z % 5) - 1)
			MAYBE(o.boundTolerance = -1.0) MAYBE(o.growFarBounds = 0.5) MAYBE(o.epsFlipping = 0.1 * (double)(z % 9)) MAYBE(o.initialFarBounds = (double)(z % 50))
			#undef SCALE
			#undef MAYBE
		}
		o.printLevel = (PrintLevel)var.plevel;
		return o;
	}

	// numbers and positions of an index list are inverse to each other
	static bool lists(Indexlist* l, int n) {
		int_t* ix; l->getNumberArray(&ix); int len = (int)l->getLength(); std::vector<char> in((size_t)n, 0);
		for (int i = 0; i < len; ++i) { if (ix[i] < 0 || ix[i] >= n) return true; in[(size_t)ix[i]] = 1; if (l->getIndex(ix[i]) != i || l->getNumber(i) != ix[i]) return false; }
		if (len > 0) for (int i = 0; i < n; ++i) if (!in[(size_t)i] && (l->getIndex(i) != -1 || l->isMember(i) == BT_TRUE)) return false;
		return len == 0 || l->getLastNumber() == ix[len - 1];
	}
	void observe(Sess* s, Obs& o, bool full = true) {
		Sut g; o = Obs(); o.have = true;
		QProblemB* b = s->b;
		o.status = b->getStatus(); o.init = b->isInitialised(); o.solved = b->isSolved(); o.infeas = b->isInfeasible(); o.unb = b->isUnbounded();
		o.htype = b->getHessianType(); o.reg = b->usingRegularisation(); o.count = (int64_t)b->getCount(); o.plevel = b->getPrintLevel();
		o.nv = (int)b->getNV(); o.nfr = (int)b->getNFR(); o.nfx = (int)b->getNFX(); o.nfv = (int)b->getNFV(); o.nz = (int)b->getNZ(); o.nc = 0;
		if (s->q) { o.nc = (int)s->q->getNC(); o.nec = (int)s->q->getNEC(); o.nac = (int)s->q->getNAC(); o.niac = (int)s->q->getNIAC(); }
		o.obj = b->getObjVal();
		std::vector<double> x(o.nv + 1), y(o.nv + o.nc + 1);
		o.rcx = b->getPrimalSolution(&x[0]); o.rcy = b->getDualSolution(&y[0]);
		if (o.rcx == 0) o.x.assign(x.begin(), x.begin() + o.nv);
		if (o.rcy == 0) o.y.assign(y.begin(), y.begin() + o.nv + o.nc);
		std::vector<double> w(o.nv + o.nc + 1);
		b->getWorkingSet(&w[0]); o.ws.assign(w.begin(), w.begin() + o.nv + o.nc);
		if (full) {
			Bounds bb; if (b->getBounds(bb) == SUCCESSFUL_RETURN && bb.getNV() == o.nv) {
				for (int i = 0; i < o.nv; ++i) o.bst.push_back(bb.getStatus(i));
				int_t* ix; bb.getFree()->getNumberArray(&ix); for (int i = 0; i < bb.getNFR(); ++i) o.fr.push_back((int)ix[i]);
				bb.getFixed()->getNumberArray(&ix); for (int i = 0; i < bb.getNFX(); ++i) o.fx.push_back((int)ix[i]);
				if (!lists(bb.getFree(), o.nv) || !lists(bb.getFixed(), o.nv)) o.incons |= 4;
				int ty[3] = {0, 0, 0}; for (int i = 0; i < o.nv; ++i) { SubjectToType t = bb.getType(i); ty[t == ST_EQUALITY ? 0 : t == ST_BOUNDED ? 1 : 2] += 1; if (t == ST_UNKNOWN || t == ST_DISABLED) ty[2] -= 1; }
				if (bb.getNFV() != ty[0] || bb.getNBV() != ty[1] || bb.getNUV() != ty[2] || o.nfv != ty[0]) o.incons |= 8;
				std::vector<double> wb((size_t)o.nv + 1); b->getWorkingSetBounds(&wb[0]); if (!std::equal(wb.begin(), wb.begin() + o.nv, o.ws.begin())) o.incons |= 1;
				if (s->q) { std::vector<BooleanType> f((size_t)o.nv + 1); if (s->q->getFreeVariablesFlags(&f[0]) == SUCCESSFUL_RETURN && (!o.fr.empty() || !o.fx.empty())) for (int i = 0; i < o.nv; ++i) if ((f[(size_t)i] == BT_TRUE) != (o.bst[(size_t)i] == 0)) o.incons |= 2; }
			}
			if (s->q) { Constraints cc; if (s->q->getConstraints(cc) == SUCCESSFUL_RETURN && cc.getNC() == o.nc) {
				for (int i = 0; i < o.nc; ++i) o.cst.push_back(cc.getStatus(i));
				int_t* ix; cc.getActive()->getNumberArray(&ix); for (int i = 0; i < cc.getNAC(); ++i) o.ac.push_back((int)ix[i]);
				cc.getInactive()->getNumberArray(&ix); for (int i = 0; i < cc.getNIAC(); ++i) o.iac.push_back((int)ix[i]);
				if (!lists(cc.getActive(), o.nc) || !lists(cc.getInactive(), o.nc)) o.incons |= 4;
				int ty[3] = {0, 0, 0}; for (int i = 0; i < o.nc; ++i) { SubjectToType t = cc.getType(i); ty[t == ST_EQUALITY ? 0 : t == ST_BOUNDED ? 1 : 2] += 1; if (t == ST_UNKNOWN || t == ST_DISABLED) ty[2] -= 1; }
				if (cc.getNEC() != ty[0] || cc.getNIC() != ty[1] || cc.getNUC() != ty[2] || o.nec != ty[0]) o.incons |= 8;
				std::vector<double> wc((size_t)o.nc + 1); s->q->getWorkingSetConstraints(&wc[0]); if (!std::equal(wc.begin(), wc.begin() + o.nc, o.ws.begin() + o.nv)) o.incons |= 1;
			} }
		}
	}

	// ---- arming and disarming the fault sources for one call
	int64_t cb0, cbf0, ls0, lsf0;
	void arm(const Op& o, Sess* s, Rec& r) {
		ClockCfg c; c.tick_us = var.tick >= 0 ? var.tick : o.i("tick", 7); c.rnd = var.tickrnd ? mix(var.tickrnd, (uint64_t)r.op) : o.u("rt");
		if (o.has("cj")) { std::string v = o.s("cj"); size_t p = 0; while (p < v.size()) { char* e; int64_t at = strtoll(v.c_str() + p, &e, 10); int64_t am = 0; if (*e == ':') am = strtoll(e + 1, &e, 10); c.jumps.push_back(std::make_pair(at, am)); p = (size_t)(e - v.c_str()); if (p < v.size()) ++p; } }
		if (o.has("cs")) { std::string v = o.s("cs"); char* e; c.stall_from = strtoll(v.c_str(), &e, 10); c.stall_to = *e == ':' ? strtoll(e + 1, 0, 10) : c.stall_from + 3; }
		clk.arm(c); clk.logging = true;
		int64_t at = o.i("af", -1); bool pers = o.i("ap", 0) != 0;
		if (var.alloc_at >= 0 && var.alloc_op == r.op) { at = var.alloc_at; pers = false; }
		if (!var.mex && o.name[0] == 'x' && o.name[1] == '_') at = -1;
		heap.arm(at, pers); heap.budget = 4000000;
		cb0 = cbf0 = 0;
		if (s && s->cb) { s->cb->havex = false; s->cb->fail_at = o.has("cf") ? s->cb->count + o.i("cf") : -1; s->cb->persist = o.i("cp", 0) != 0; s->cb->err = (int)o.i("ce", 1); cb0 = s->cb->count; cbf0 = s->cb->fired; }
		linsol::arm(o.i("lf", -1), (int)o.i("lk", 0), o.i("lp", 0) != 0, (int)o.i("lm", 0));
		ls0 = linsol::calls(); lsf0 = linsol::fired();
		disk.faults.clear(); disk.capacity = o.i("cap", -1); disk.active = true;
	}
	void disarm(Sess* s, Rec& r) {
		r.allocs = heap.count; r.clkreads = clk.reads; r.cklog = clk.log;
		heap.arm(-1, false); heap.budget = -1; clk.arm(ClockCfg()); clk.logging = false;
		if (s && s->cb) { r.calls = s->cb->count - cb0; r.faults += s->cb->fired - cbf0; tr.fired[F_CALLBACK] += s->cb->fired - cbf0; s->cb->fail_at = -1; }
		else { r.calls = linsol::calls() - ls0; }
		r.faults += linsol::fired() - lsf0; linsol::arm(-1, 0, false, 0);
		disk.capacity = -1; disk.faults.clear();
	}
	template <class F> void guarded(const Op& o, Sess* s, Rec& r, F f) {
		arm(o, s, r); r.called = true; int64_t fired0 = heap.fired;
		try { Sut g; f(); }
		catch (std::bad_alloc&) { r.exc = 1; }
		catch (StepBudgetExceeded&) { r.exc = 2; }
		catch (...) { r.exc = 3; }
		in_sut = 0;
		r.faults += heap.fired - fired0;
		disarm(s, r);
	}

	Sess* sess(const Op& o, const char* k = "s") { std::map<int, Sess*>::iterator it = S.find((int)o.i(k, -1)); return it == S.end() ? 0 : it->second; }

	void destroy(Sess* s) {
		{ Sut g; delete s->b; }
		{ Sut g; s->sb = Bounds(); s->sc = Constraints(); }
		{ Sut g; delete s; }
	}

	void op_new(const Op& o, Rec& r) {
		int id = (int)o.i("s"); if (S.count(id)) { destroy(S[id]); S.erase(id); }
		char cls = o.s("c", "Q")[0];
		int nv = (int)o.i("nv", 2), nc = cls == 'B' ? 0 : (int)o.i("nc", 0), ht = (int)o.i("ht", HST_UNKNOWN);
		BooleanType dense = o.i("nd", 0) ? BT_FALSE : BT_TRUE;
		QProblemB* b = 0; QProblem* q = 0; SQProblem* s = 0; SQProblemSchur* z = 0;
		guarded(o, 0, r, [&] {
			if (cls == 'B') b = new QProblemB(nv, (HessianType)ht);
			else if (cls == 'Q') b = q = new QProblem(nv, nc, (HessianType)ht, dense);
			else if (cls == 'S') b = q = s = new SQProblem(nv, nc, (HessianType)ht, dense);
			else b = q = s = z = new SQProblemSchur(nv, nc, (HessianType)ht, (int_t)o.i("buf", 75));
			r.rc = 0;
		});
		if (!b) return;
		Sess* e; { Sut g; e = new Sess(); } e->id = id; e->cls = cls; e->nv = nv; e->nc = nc; e->b = b; e->q = q; e->s = s; e->z = z; e->ob = (int)o.i("ob"); e->os = o.u("os"); e->ht = ht;
		S[id] = e; r.cls = cls;
		{ Sut g; Options op = make_options(e->ob, e->os); if (o.has("sc")) opt_scramble(op, o.u("sc")); if (var.opts) { Out k; r.asked = opt_values(op); } b->setOptions(op); b->setPrintLevel((PrintLevel)var.plevel); }
	}
	void op_opts(const Op& o, Rec& r) {
		Sess* s = sess(o); if (!s) return; r.cls = s->cls; r.called = true; const int how = (int)o.i("how");
		s->ob = (int)o.i("ob"); s->os = o.u("os"); Sut g; Options op = make_options(s->ob, s->os);
		if (how == 1) op = s->b->getOptions();                        // the options in force, modified
		if (o.has("sc")) opt_scramble(op, o.u("sc"));
		if (var.opts) { Out k; r.asked = opt_values(op); }
		if (how == 2) { Options c(op), d; opt_scramble(d, o.u("sc", 1)); d = c; d = d; Options e = d; op = e; }      // the options, copied around
		if (how == 3) {                                               // a preset chosen on an object that held something else
			Options d; opt_scramble(d, o.u("v", 1)); d.printLevel = PL_HIGH; Options f; if (s->ob == 1) { d.setToMPC(); f.setToMPC(); } else if (s->ob == 2) { d.setToReliable(); f.setToReliable(); } else if (s->ob == 3) { d.setToFast(); f.setToFast(); } else { d.setToDefault(); f.setToDefault(); }
			{ Out k; std::vector<double> a = opt_values(d), b = opt_values(f); for (size_t i = 0; i < a.size(); ++i) if (!(a[i] == b[i])) r.argmod = 40 + (int)i; } d.printLevel = op.printLevel; f.printLevel = op.printLevel; op = d; if (var.opts) { Out k; r.asked = opt_values(f); }
		}
		if (var.opts) { Options c(op); r.iv.push_back((int64_t)c.ensureConsistency()); Options d(c); r.iv.push_back((int64_t)c.ensureConsistency()); Out k; std::vector<double> a = opt_values(c), b = opt_values(d); r.iv.push_back(a == b); r.dv = b; }
		r.rc = s->b->setOptions(op);
	}
	void op_copy(const Op& o, Rec& r) {
		Sess* s = sess(o); int d = (int)o.i("d"); if (!s) return;
		r.cls = s->cls; r.iv.push_back(d); bool assign = o.s("how", "ctor") == "assign"; r.called = true;
		Sess* t = S.count(d) ? S[d] : 0;
		if (d == s->id) {                  // self assignment
			guarded(o, s, r, [&] { if (s->cls == 'B') *s->b = *s->b; else if (s->cls == 'Q') *s->q = *s->q; else if (s->cls == 'S') *s->s = *s->s; else *s->z = *s->z; r.rc = 0; });
			return;
		}
		if (assign && t && t->cls == s->cls) {
			guarded(o, 0, r, [&] { if (s->cls == 'B') *t->b = *s->b; else if (s->cls == 'Q') *t->q = *s->q; else if (s->cls == 'S') *t->s = *s->s; else *t->z = *s->z; r.rc = 0; });
			if (r.exc == 0) inherit(t, s);
			return;
		}
		if (t) { destroy(t); S.erase(d); }
		QProblemB* b = 0; QProblem* q = 0; SQProblem* sq = 0; SQProblemSchur* z = 0;
		guarded(o, 0, r, [&] {
			if (assign) {               // into an object made by the default constructor, or one of other dimensions
				int dn = (int)o.i("dn", 0), dc = (int)o.i("dc", 0);
				if (s->cls == 'B') { b = dn ? new QProblemB(dn) : new QProblemB(); *b = *s->b; }
				else if (s->cls == 'Q') { b = q = dn ? new QProblem(dn, dc) : new QProblem(); *q = *s->q; }
				else if (s->cls == 'S') { b = q = sq = dn ? new SQProblem(dn, dc) : new SQProblem(); *sq = *s->s; }
				else { b = q = sq = z = dn ? new SQProblemSchur(dn, dc) : new SQProblemSchur(); *z = *s->z; }
			} else {
				if (s->cls == 'B') b = new QProblemB(*s->b);
				else if (s->cls == 'Q') b = q = new QProblem(*s->q);
				else if (s->cls == 'S') b = q = sq = new SQProblem(*s->s);
				else b = q = sq = z = new SQProblemSchur(*s->z);
			}
			r.rc = 0;
		});
		if (!b) return;
		if (r.exc) { { Sut g; delete b; } return; }
		Sess* e; { Sut g; e = new Sess(); } e->id = d; e->cls = s->cls; e->b = b; e->q = q; e->s = sq; e->z = z; S[d] = e; inherit(e, s);
	}
	void inherit(Sess* t, Sess* s) {
		t->nv = s->nv; t->nc = s->nc; t->m = s->m; t->hasm = s->hasm; t->cb = s->cb; t->ht = s->ht; t->hnull = s->hnull; t->ob = s->ob; t->os = s->os; t->lx = s->lx; t->ly = s->ly;
		t->sx = s->sx; t->sy = s->sy; t->saved = s->saved; t->ssok = s->ssok; { Sut g; t->sb = s->sb; t->sc = s->sc; }
	}
	void op_del(const Op& o, Rec& r) {
		Sess* s = sess(o); if (!s) return; r.cls = s->cls; r.called = true; S.erase(s->id); clk.arm(ClockCfg());
		destroy(s); r.rc = 0;
	}
	void op_reset(const Op& o, Rec& r) {
		Sess* s = sess(o); if (!s) return; r.cls = s->cls;
		guarded(o, s, r, [&] { r.rc = s->b->reset(); });
		if (s->cb) s->cb.reset();
		if (r.rc == 0 && o.i("rcnt")) { Sut g; s->b->resetCounter(); }
	}

	// matrices in the requested storage
	MatData* lend(const QP& q, int st, bool dense_only) {
		mats.push_back(std::unique_ptr<MatData>(new MatData())); MatData* m = mats.back().get();
		m->H = q.H; m->A = q.A; if (m->H.empty()) m->H.push_back(0); if (m->A.empty()) m->A.push_back(0);
		m->H0 = m->H; m->A0 = m->A;
		(void)dense_only;
		if (st > 0) {
			Sut g;
			if (st == 1) { m->Hm = new SymDenseMat(q.nv, q.nv, q.nv, &m->H[0]); if (q.nc) m->Am = new DenseMatrix(q.nc, q.nv, q.nv, &m->A[0]); }
			else {
				SymSparseMat* h = new SymSparseMat(q.nv, q.nv, q.nv, &m->H[0]); h->createDiagInfo(); m->Hm = h;
				if (q.nc) { if (st == 2) m->Am = new SparseMatrix(q.nc, q.nv, q.nv, &m->A[0]); else m->Am = new SparseMatrixRow(q.nc, q.nv, q.nv, &m->A[0]); }
			}
		}
		return m;
	}
	static bool all(const std::vector<double>& v, double c) { for (double d : v) if (d != c) return false; return true; }

	struct Guess { Arr x, y; Bounds* b = 0; Constraints* c = 0; Arr R; bool rNo = false; };
	static SubjectToStatus st_of(double w) { return w < -0.5 ? ST_LOWER : w > 0.5 ? ST_UPPER : ST_INACTIVE; }
	void guesses(const Op& o, Sess* s, const QP& q, Guess& g) {
		Rng r(o.u("gs", 1)); int xg = (int)o.i("xg"), yg = (int)o.i("yg"), gb = (int)o.i("gb"), gc = (int)o.i("gc");
		int n = s->nv, m = s->nc; double mag = 0.05 * (double)(1 + o.i("gd", 0));
		auto vec = [&](int kind, const std::vector<double>& exact, const std::vector<double>& saved, size_t len, Arr& a) {
			if (!kind) return; std::vector<double> v(len, 0.0);
			if (kind == 1) { v = exact; v.resize(len); }
			else if (kind == 2) { v = exact; v.resize(len); for (double& d : v) if (r.chance(0.6)) d += r.uni(-mag, mag); }
			else if (kind == 3) { if (saved.size() == len) v = saved; }
			else if (kind == 4) { for (double& d : v) d = r.chance(0.3) ? 0.0 : r.uni(-2, 2); }
			a.init(v);
		};
		vec(xg, q.x, s->sx, n, g.x); vec(yg, q.y, s->sy, n + m, g.y);
		if (gb) {
			Sut k; g.b = new Bounds(n);
			if (gb == 3 && s->ssok) *g.b = s->sb;
			else if (gb == 2) { Bounds cur; if (s->b->getBounds(cur) == SUCCESSFUL_RETURN && cur.getNV() == n) { bool ok = true; for (int i = 0; i < n; ++i) if (cur.getStatus(i) == ST_UNDEFINED) ok = false; if (ok) *g.b = cur; else g.b->setupAllFree(); } else g.b->setupAllFree(); }
			else for (int i = 0; i < n; ++i) {
				int w = q.ws.empty() ? 0 : q.ws[i]; if (gb == 4) w = (int)r.range(-1, 1); else if (gb == 5) w = 0; else if (gb == 6) w = -1; else if (gb == 7) w = 1;
				if (gb == 4 || gb == 6 || gb == 7) { if (w < 0 && q.lb[i] <= -INF) w = q.ub[i] < INF ? 1 : 0; if (w > 0 && q.ub[i] >= INF) w = q.lb[i] > -INF ? -1 : 0; }
				g.b->setupBound(i, st_of(w));
			}
		}
		if (gc && s->q) {
			Sut k; g.c = new Constraints(m);
			if (gc == 3 && s->ssok) *g.c = s->sc;
			else if (gc == 2) { Constraints cur; if (s->q->getConstraints(cur) == SUCCESSFUL_RETURN && cur.getNC() == m) { bool ok = true; for (int i = 0; i < m; ++i) if (cur.getStatus(i) == ST_UNDEFINED) ok = false; if (ok) *g.c = cur; else g.c->setupAllInactive(); } else g.c->setupAllInactive(); }
			else for (int i = 0; i < m; ++i) {
				int w = q.ws.empty() ? 0 : q.ws[n + i]; if (gc == 4) w = r.chance(0.6) ? 0 : (int)r.range(-1, 1); else if (gc == 5) w = 0; else if (gc == 6) w = -1; else if (gc == 7) w = 1;
				if (gc == 4 || gc == 6 || gc == 7) { if (w < 0 && q.lbA[i] <= -INF) w = q.ubA[i] < INF ? 1 : 0; if (w > 0 && q.ubA[i] >= INF) w = q.lbA[i] > -INF ? -1 : 0; }
				g.c->setupConstraint(i, st_of(w));
			}
		}
		if (o.i("R")) {                   // upper triangular Cholesky factor of H
			std::vector<double> L(n * n, 0.0), R(n * n, 0.0); bool ok = true;
			for (int j = 0; j < n && ok; ++j) { double d = q.H[j * n + j]; for (int l = 0; l < j; ++l) d -= L[j * n + l] * L[j * n + l]; if (d <= 1e-10) { ok = false; break; } d = std::sqrt(d); L[j * n + j] = d; for (int i = j + 1; i < n; ++i) { double v = q.H[i * n + j]; for (int l = 0; l < j; ++l) v -= L[i * n + l] * L[j * n + l]; L[i * n + j] = v / d; } }
			if (ok) { for (int i = 0; i < n; ++i) for (int j = i; j < n; ++j) R[i * n + j] = L[j * n + i]; g.R.init(R); }
		}
	}
	void drop(Guess& g, Rec& r) {
		if (!g.x.done()) r.argmod = 1; if (!g.y.done()) r.argmod = 2; if (!g.R.done()) r.argmod = 3;
		{ Sut k; delete g.b; delete g.c; }
	}
	std::string text_of(const std::vector<double>& v, int cols, const Op& o) {
		std::string t; char b[64]; int style = (int)o.i("fs", 0);
		for (size_t i = 0; i < v.size(); ++i) { snprintf(b, sizeof b, "%.17g", v[i]); t += b; if (style == 1) t += "\r\n"; else if (style == 2) t += "\t \n\n"; else t += (cols > 0 && (int)((i + 1) % cols) == 0) ? "\n" : " "; }
		return t;
	}
	// writes the data of one file to the simulated disk; applies corruption and arms faults if this is the chosen file
	const char* file(const char* nm, const std::vector<double>& v, int cols, const Op& o, std::vector<std::string>& names, Rec& r) {
		names.push_back(std::string("d/") + nm); std::string t = text_of(v, cols, o);
		if (o.s("ff") == nm) {
			int fk = (int)o.i("fk"); int64_t pm = o.i("fa"); size_t pos = (size_t)((int64_t)t.size() * pm / 1000); const char* ws = " \r\n\t";
			size_t lastend = t.find_last_not_of(ws); lastend = lastend == std::string::npos ? 0 : lastend + 1; size_t lastbeg = t.find_last_of(ws, lastend ? lastend - 1 : 0); lastbeg = lastbeg == std::string::npos ? 0 : lastbeg + 1;
			if (fk == 2 || fk == 10) { if (pos > lastbeg && pos < lastend) pos = lastbeg; }     // a torn last number cannot be told from a shorter one
			r.text = "damaged";
			if (fk == 1 || fk == 2 || fk == 5) { FileFault f; f.kind = fk; f.at = (int64_t)pos; f.err = o.i("fe", 0) ? 24 : 5; disk.faults[names.back()] = f; if (fk == 5 || (fk == 2 && pos >= lastend)) r.text = "complete"; }
			else if (fk == 3) { FileFault f; f.kind = 3; f.at = 1 + pm % 7; disk.faults[names.back()] = f; r.text = "complete"; }
			else if (fk == 10) { t.resize(pos); ++tr.fired[F_CORRUPT]; r.iv.push_back((int64_t)pos); if (pos >= lastend) r.text = "complete"; }                 // truncated (torn) file
			else if (fk == 11) { size_t p = pos; if (p > lastbeg) p = lastbeg; while (p > 0 && !strchr(ws, t[p - 1])) --p; p = t.find_first_not_of(ws, p); if (p != std::string::npos) t[p] = "#xQ;?!"[pm % 6]; ++tr.fired[F_CORRUPT]; }
			else if (fk == 12) { ++tr.fired[F_CORRUPT]; disk.files.erase(names.back()); return names.back().c_str(); }  // missing
			else if (fk == 13) { t.clear(); ++tr.fired[F_CORRUPT]; }
			else if (fk == 14) { t += " 1.5 2.5\n"; r.text = "complete"; }                                                                  // surplus data at the end
			else r.text = "complete";
		}
		disk.files[names.back()] = t; return names.back().c_str();
	}

	void op_solve(const Op& o, Rec& r) {
		Sess* s = sess(o); if (!s) return; r.cls = s->cls;
		bool init = o.name == "init", hotm = o.name == "hotm";
		if (hotm && !s->s) return;
		if (!init && !hotm && !s->hasm) {        // a hotstart before any initialisation: matrices are whatever the op says
			s->m = spec_of(o, s->nv, s->nc);
		}
		QPSpec sp = spec_of(o, s->nv, s->nc);
		if (!init && !hotm) { sp.mseed = s->m.mseed; sp.hk = s->m.hk; sp.sparse = s->m.sparse; }
		QP q = make_qp(sp); if (!q.ok) { sp.vk = VK_NICE; q = make_qp(sp); } if (!q.ok) return;
		if (s->ht == 0 && sp.hk != HK_ZERO) return; if (s->ht == 1 && sp.hk != HK_IDENT) return; if (s->ht == 2 && sp.hk == HK_ZERO) return; if (s->ht == 2 && sp.hk == HK_SEMI) return;   // the caller declared something else
		r.q = sp; r.hasqp = true;
		int st = (int)o.i("st", 0); if (s->cls == 'Z' && st == 3 && (sp.vseed & 7)) st = 2; /* row storage has no sparse submatrix: refused */ bool viafile = o.s("via") == "file";
		Arr g, lb, ub, lbA, ubA; int nb = (int)o.i("nb", 0); bool hasA = s->nc > 0;
		g.init(q.g);
		if (!((nb & 1) && all(q.lb, -INF))) lb.init(q.lb);
		if (!((nb & 2) && all(q.ub, INF))) ub.init(q.ub);
		if (hasA && !((nb & 4) && all(q.lbA, -INF))) lbA.init(q.lbA);
		if (hasA && !((nb & 8) && all(q.ubA, INF))) ubA.init(q.ubA);
		int_t n = (int_t)o.i("n", 500); r.nin = n;
		bool cpu = o.has("cpu") && !var.nocpu; double cl = 1e-6 * (double)o.i("cpu"); real_t ct = cl; r.cin = cpu ? cl : -1;
		bool wantct = cpu || o.i("ct", 0); if (!cpu) ct = 1e10;
		Guess gs; guesses(o, s, q, gs);
		if (!init && !hotm) { gs.x.done(); gs.y.done(); gs.R.done(); }
		if (hotm) { gs.x.done(); gs.y.done(); gs.R.done(); }
		if (!s->q && gs.c) { Sut k; delete gs.c; gs.c = 0; }
		MatData* m = 0; bool nullH = o.i("nH", 0) && (sp.hk == HK_ZERO || (sp.hk == HK_IDENT && s->ht == 1)) && (init || s->hnull);
		if ((init || hotm) && !viafile) m = lend(q, st, false);
		std::vector<std::string> nm; nm.reserve(16); const char *fH = 0, *fg = 0, *fA = 0, *flb = 0, *fub = 0, *flbA = 0, *fubA = 0, *fR = 0;
		if (o.i("cb") && s->q && hasA && !viafile) {
			if (init) { if (s->b->isInitialised()) { Sut k; s->b->reset(); } cbs.push_back(std::make_shared<Callback>()); s->cb = cbs.back(); s->cb->nv = s->nv; s->cb->nc = s->nc; }
			if (s->cb && m) s->cb->A = &m->A;
			if (init) { Sut k; s->q->setConstraintProduct(s->cb.get()); }
		} else if (init && s->cb) { Sut k; s->q->setConstraintProduct(0); s->cb.reset(); }
		if (hotm && s->cb && m) s->cb->A = &m->A;
		if (init && s->ht != 6 && !(s->ht == 1 && nullH)) { Sut k; if (s->b->isInitialised()) s->b->reset(); s->b->setHessianType((HessianType)s->ht); }     // a reset forgets the declared type
				arm(o, s, r);
		if (viafile) {
			disk.files.clear();
			if ((init || hotm) && !nullH) fH = file("H", q.H, q.nv, o, nm, r);
			fg = file("g", q.g, 1, o, nm, r);
			if ((init || hotm) && hasA) fA = file("A", q.A, q.nv, o, nm, r);
			if (!lb.null) flb = file("lb", q.lb, 1, o, nm, r); if (!ub.null) fub = file("ub", q.ub, 1, o, nm, r);
			if (!lbA.null) flbA = file("lbA", q.lbA, 1, o, nm, r); if (!ubA.null) fubA = file("ubA", q.ubA, 1, o, nm, r);
			if (!gs.R.null) fR = file("R", gs.R.orig, q.nv, o, nm, r);
		}
		r.called = true; real_t* cp = wantct ? &ct : 0; int64_t fired0 = heap.fired;
		real_t* H_ = 0; real_t* A_ = 0; if (m) { H_ = nullH ? 0 : &m->H[0]; A_ = hasA ? &m->A[0] : 0; }
		SymmetricMatrix* Hm = 0; Matrix* Am = 0; if (m && st > 0) { Hm = nullH ? 0 : m->Hm; Am = m->Am; }
		if (o.i("bad", 0) == 1) g.done(); if (o.i("bad", 0) == 2) { H_ = 0; Hm = 0; } if (o.i("bad", 0) == 3) { A_ = 0; Am = 0; }
		if (s->cls == 'Z') { if (init || hotm) s->rows = m && st == 3; if (s->rows) ++r.faults; }
		try {
			Sut k;
			if (init) {
				if (!s->q) {
					if (viafile) r.rc = s->b->init(fH, fg, flb, fub, n, cp, gs.x.get(), gs.y.get(), gs.b, fR);
					else if (st) r.rc = s->b->init(Hm, g.get(), lb.get(), ub.get(), n, cp, gs.x.get(), gs.y.get(), gs.b, gs.R.get());
					else r.rc = s->b->init((const real_t*)H_, g.get(), lb.get(), ub.get(), n, cp, gs.x.get(), gs.y.get(), gs.b, gs.R.get());
				} else {
					if (viafile) r.rc = s->q->init(fH, fg, fA, flb, fub, flbA, fubA, n, cp, gs.x.get(), gs.y.get(), gs.b, gs.c, fR);
					else if (st) r.rc = s->q->init(Hm, g.get(), Am, lb.get(), ub.get(), lbA.get(), ubA.get(), n, cp, gs.x.get(), gs.y.get(), gs.b, gs.c, gs.R.get());
					else r.rc = s->q->init((const real_t*)H_, g.get(), (const real_t*)A_, lb.get(), ub.get(), lbA.get(), ubA.get(), n, cp, gs.x.get(), gs.y.get(), gs.b, gs.c, gs.R.get());
				}
			} else if (hotm) {
				if (viafile) r.rc = s->s->hotstart(fH, fg, fA, flb, fub, flbA, fubA, n, cp, gs.b, gs.c);
				else if (st) r.rc = s->s->hotstart(Hm, g.get(), Am, lb.get(), ub.get(), lbA.get(), ubA.get(), n, cp, gs.b, gs.c);
				else r.rc = s->s->hotstart((const real_t*)H_, g.get(), (const real_t*)A_, lb.get(), ub.get(), lbA.get(), ubA.get(), n, cp, gs.b, gs.c);
			} else {
				if (!s->q) { if (viafile) r.rc = s->b->hotstart(fg, flb, fub, n, cp, gs.b); else r.rc = s->b->hotstart(g.get(), lb.get(), ub.get(), n, cp, gs.b); }
				else if (s->s) { if (viafile) r.rc = s->s->hotstart(fg, flb, fub, flbA, fubA, n, cp, gs.b, gs.c); else r.rc = s->s->hotstart(g.get(), lb.get(), ub.get(), lbA.get(), ubA.get(), n, cp, gs.b, gs.c); }
				else { if (viafile) r.rc = s->q->hotstart(fg, flb, fub, flbA, fubA, n, cp, gs.b, gs.c); else r.rc = s->q->hotstart(g.get(), lb.get(), ub.get(), lbA.get(), ubA.get(), n, cp, gs.b, gs.c); }
			}
		}
		catch (std::bad_alloc&) { r.exc = 1; } catch (StepBudgetExceeded&) { r.exc = 2; } catch (...) { r.exc = 3; }
		in_sut = 0; r.faults += heap.fired - fired0;
		disarm(s, r);
		if (viafile && o.has("ff") && r.text.empty()) r.text = "unused";
		if (init || (hotm && !o.i("bad") && !((r.text == "damaged" && r.rc != 0) || r.rc == (int)RET_UNABLE_TO_READ_FILE || r.rc == (int)RET_UNABLE_TO_OPEN_FILE))) { s->m = sp; s->hasm = true; s->hnull = nullH; }
		r.nout = n; r.cout_ = wantct ? ct : -1;
		if (r.rc == (int)RET_MAX_NWSR_REACHED) { if (cpu && n < r.nin) ++tr.fired[F_TIMELIM]; else ++tr.fired[F_BUDGET]; }
		if (!g.done() && o.i("bad", 0) != 1) r.argmod = 4; if (!lb.done() || !ub.done()) r.argmod = 5; if (!lbA.done() || !ubA.done()) r.argmod = 6;
		drop(gs, r);
		if (m) { if (memcmp(m->H.data(), m->H0.data(), m->H.size() * 8)) r.argmod = 8; if (memcmp(m->A.data(), m->A0.data(), m->A.size() * 8)) r.argmod = 7; }
		if (s->cb && s->cb->bad_index) r.iv.push_back(-77);
		if (s->cb && s->cb->havex && s->b->getStatus() == QPS_SOLVED) r.dv = s->cb->lastx;
	}

	void op_save(const Op& o, Rec& r) {
		Sess* s = sess(o); if (!s) return; r.called = true; r.cls = s->cls;
		std::vector<double> x(s->nv), y(s->nv + s->nc + 1);
		{ Sut g; if (s->b->getPrimalSolution(&x[0]) == SUCCESSFUL_RETURN) s->sx = x; if (s->b->getDualSolution(&y[0]) == SUCCESSFUL_RETURN) { y.resize(s->nv + s->nc); s->sy = y; }
		  Bounds b; Constraints c; bool ok = s->b->getBounds(b) == SUCCESSFUL_RETURN && b.getNV() == s->nv; if (ok) for (int i = 0; i < s->nv; ++i) if (b.getStatus(i) == ST_UNDEFINED) ok = false;
		  if (ok && s->q) { ok = s->q->getConstraints(c) == SUCCESSFUL_RETURN && c.getNC() == s->nc; if (ok) for (int i = 0; i < s->nc; ++i) if (c.getStatus(i) == ST_UNDEFINED) ok = false; }
		  if (ok) { s->sb = b; s->sc = c; s->ssok = true; } }
		s->saved = true; r.rc = 0;
	}
	// durable data of one session handed to another one (restart after a crash)
	void op_load(const Op& o, Rec& r) {
		Sess* s = sess(o); Sess* f = sess(o, "f"); if (!s || !f || s->nv != f->nv || s->nc != f->nc) return; r.called = true; ++tr.fired[F_STALE];
		s->sx = f->sx; s->sy = f->sy; s->saved = f->saved; s->ssok = f->ssok; { Sut g; s->sb = f->sb; s->sc = f->sc; } r.rc = 0;
	}

	void op_obs(const Op& o, Rec& r) {
		Sess* s = sess(o); if (!s || var.noobsops) return; r.cls = s->cls; int w = (int)o.i("w");
		guarded(o, s, r, [&] {
			switch (w) {
				case 0: r.rc = s->b->printProperties(); break;
				case 1: r.rc = s->b->printOptions(); break;
				case 2: { Obs ob; observe(s, ob); } break;
				case 3: if (s->q) { SolutionAnalysis a; real_t st, fe, cm; double v = s->s ? a.getKktViolation(s->s, &st, &fe, &cm) : a.getKktViolation(s->q, &st, &fe, &cm); r.dv.push_back(v); } else { SolutionAnalysis a; r.dv.push_back(a.getKktViolation(s->b)); } break;
				case 4: { int n = 2 * s->nv + s->nc, m = s->nv + s->nc; if (s->cls == 'Z') break; std::vector<double> in(n * n, 0.0), out((size_t)(n > m ? n * n : m * m) + 16, 0.0); for (int i = 0; i < n; ++i) in[i * n + i] = 1.0;
					if (!s->q) { std::vector<double> in2(4 * s->nv * s->nv, 0.0), out2(4 * s->nv * s->nv, 0.0); SolutionAnalysis a; r.rc = a.getVarianceCovariance(s->b, &in2[0], &out2[0]); }
					else { SolutionAnalysis a; r.rc = s->s ? a.getVarianceCovariance(s->s, &in[0], &out[0]) : a.getVarianceCovariance(s->q, &in[0], &out[0]); } } break;
				case 5: if (s->q) { eqp(s, o, r); } break;
				case 6: if (s->q) { disk.active = true; r.rc = s->q->writeQpDataIntoMatFile("d/dump.mat"); } break;
				case 7: if (s->q) { disk.active = true; r.rc = s->q->writeQpWorkspaceIntoMatFile("d/ws.mat"); } break;
				case 8: { Options op = s->b->getOptions(); op.print(); r.rc = op.ensureConsistency() == SUCCESSFUL_RETURN ? 0 : 1; } break;
				case 9: { Bounds b; s->b->getBounds(b); b.print(); if (s->q) { Constraints c; s->q->getConstraints(c); c.print(); std::vector<BooleanType> f((size_t)s->nv); s->q->getFreeVariablesFlags(&f[0]); } } break;
				case 10: { std::vector<double> x(s->nv, 0.5); r.dv.push_back(s->b->getObjVal(&x[0])); } break;
				case 11: if (s->s && s->cls == 'S') { SolutionAnalysis a; r.rc = a.checkCurvatureOnStronglyActiveConstraints(s->s); } break;
				case 14: { std::vector<double> w2((size_t)(s->nv + s->nc) + 1, 0.0); s->b->getWorkingSet(&w2[0]); s->b->getWorkingSetBounds(&w2[0]); s->b->getWorkingSetConstraints(&w2[0]); std::vector<double> x((size_t)s->nv); if (s->b->getPrimalSolution(&x[0]) == SUCCESSFUL_RETURN) { print(&x[0], s->nv); print(&x[0], 1, s->nv, "x"); } } break;
				case 12: r.rc = s->b->setPrintLevel((PrintLevel)var.plevel); break;
				case 13: { QProblemB* t = s->b; (void)t; getSimpleStatus((returnValue)o.i("rcv", 0), BT_FALSE); } break;
			}
		});
	}
	// the k right-hand sides belong to the seeds v, v+1, ...; the judge makes the same data again
	void eqp(Sess* s, const Op& o, Rec& r) {
		if (!s->hasm) return;
		int k = (int)o.i("k", 1); int n = s->nv, m = s->nc;
		std::vector<double> g, lb, ub, lbA, ubA, x(n * k), y((n + m) * k);
		for (int i = 0; i < k; ++i) {
			QPSpec sp = s->m; sp.vseed = o.u("v", 1) + i; QP q = make_qp(sp); if (!q.ok) return; if (!i) r.q = sp;
			g.insert(g.end(), q.g.begin(), q.g.end()); lb.insert(lb.end(), q.lb.begin(), q.lb.end()); ub.insert(ub.end(), q.ub.begin(), q.ub.end()); lbA.insert(lbA.end(), q.lbA.begin(), q.lbA.end()); ubA.insert(ubA.end(), q.ubA.begin(), q.ubA.end());
		}
		lbA.push_back(0); ubA.push_back(0);
		r.rc = s->q->solveCurrentEQP(k, &g[0], &lb[0], &ub[0], &lbA[0], &ubA[0], &x[0], &y[0]); r.iv.push_back(k);
		if (r.rc == 0) { r.dv = x; r.dv.insert(r.dv.end(), y.begin(), y.end()); }
	}
	void options_of(Sess* s, Rec& r) { Options o; { Sut g; o = s->b->getOptions(); } r.opt = opt_values(o); }
	void op_cnt(const Op& o, Rec& r) { Sess* s = sess(o); if (!s) return; r.called = true; Sut g; r.rc = s->b->resetCounter(); }
	void op_seth(const Op& o, Rec& r) { Sess* s = sess(o); if (!s) return; r.called = true; Sut g; r.rc = s->b->setHessianType((HessianType)o.i("ht")); }

	void op_write(const Op& o, Rec& r);
	void op_oqp(const Op& o, Rec& r);
	void op_c(const Op& o, Rec& r);
	QProblemB* cobj[3] = {0, 0, 0}; int cnv[3] = {0, 0, 0}, cnc[3] = {0, 0, 0}; std::vector<std::unique_ptr<Arr> > ckeep;
	void c_end();
#ifdef SIM_MEX
	std::map<int, XSlot> xs; bool x_begun = false; double xlast[2] = {0, 0}, xstale[2] = {0, 0}; std::vector<double> xlive[2]; int64_t x_base = 0;
	XOpt xopt(const Op& o, int plevel); void x_free(XSlot& s); void x_begin(); void x_end(); void op_x(const Op& o, Rec& r);
#elif defined(SIM_BLK)
	std::map<int, YSlot> ys; void y_free(YSlot& s); void x_end(); void op_x(const Op& o, Rec& r);
#else
	void x_end() {} void op_x(const Op&, Rec&) {}
#endif

	void step(int idx) {
		const Op& o = prog.ops[idx]; Rec r; r.op = idx; r.name = o.name; r.sess = (int)o.i("s", -1);
		if (progress) *progress = idx;
		if (msg) getGlobalMessageHandler()->setOutputFile(msg);      // creating an object resets the message handler
		dirty_stack(heap.fill);
		if (o.name == "new") op_new(o, r); else if (o.name == "del") op_del(o, r); else if (o.name == "copy") op_copy(o, r); else if (o.name == "opts") op_opts(o, r);
		else if (o.name == "init" || o.name == "hot" || o.name == "hotm") op_solve(o, r);
		else if (o.name == "reset") op_reset(o, r); else if (o.name == "save") op_save(o, r); else if (o.name == "load") op_load(o, r);
		else if (o.name == "obs") op_obs(o, r); else if (o.name == "cnt") op_cnt(o, r); else if (o.name == "seth") op_seth(o, r); else if (o.name == "write") op_write(o, r); else if (o.name == "oqp") op_oqp(o, r); else if (o.name.compare(0, 2, "c_") == 0) op_c(o, r); else if (o.name.compare(0, 2, "x_") == 0) op_x(o, r);
		if (!heap.error) heap_quarantine_check();
		if (heap.error && tr.heap_error.empty()) { tr.heap_error = std::string(heap.error) + " during '" + o.str() + "'"; }
		Sess* s = S.count(r.sess) ? S[r.sess] : 0;
		bool skip = o.name == "obs";
		if (o.name == "copy" && !r.iv.empty() && S.count((int)r.iv[0])) { Rec c; c.op = idx; c.name = "copied"; c.sess = (int)r.iv[0]; if (!var.quiet && r.exc == 0) observe(S[c.sess], c.o); if (var.opts && r.exc == 0) options_of(S[c.sess], c); tr.recs.push_back(c); }
		if (s && r.called && !skip && (!var.quiet || lastop.empty() || lastop[idx])) { if (var.opts) options_of(s, r); if (r.exc == 0) { observe(s, r.o); if (r.hasqp) { Sut g; r.o.simple = (int)getSimpleStatus((returnValue)r.rc); } } }
		if (!heap.error) heap_quarantine_check();
		if (heap.error && tr.heap_error.empty()) { tr.heap_error = std::string(heap.error) + " while querying after '" + o.str() + "'"; }
		if (skip && var.noobsops) return;
		tr.recs.push_back(r);
	}
	void cleanup() {
		if (progress) *progress = (int)prog.ops.size();
		c_end(); x_end();
		for (auto& p : S) destroy(p.second);
		S.clear(); cbs.clear(); mats.clear();
	}
	void run_sequential() { for (int i = 0; i < (int)prog.ops.size(); ++i) { if (var.only >= 0 && prog.ops[i].i("grp", 0) != var.only) continue; step(i); } }
	void run_interleaved();
};

// ------------------------------------------------------------------ writing files
void World::op_write(const Op& o, Rec& r) {
	Sess* s = sess(o); Rng g(o.u("v", 1)); int w = (int)o.i("w"); int n = (int)o.i("n", 5), m = (int)o.i("mm", 1);
	std::vector<double> d(n * m); std::vector<int_t> iv(n);
	for (double& v : d) { switch (g.next() % 6) { case 0: v = (double)g.range(-1000, 1000); break; case 1: v = 0; break; case 2: v = g.uni(-1, 1) * 1e-12; break; case 3: v = g.uni(-1, 1) * 1e15; break; default: v = g.uni(-10, 10); } }
	for (int_t& v : iv) v = (int_t)(g.chance(0.1) ? g.range(-4000000000000000000ll, 4000000000000000000ll) : g.range(-1000000, 1000000));
	BooleanType app = o.i("app") ? BT_TRUE : BT_FALSE; std::string name = "d/out" + std::to_string(o.i("slot", 0));
	int64_t before = disk.files.count(name) ? (int64_t)disk.files[name].size() : -1;
	std::string old = before >= 0 ? disk.files[name] : "";
	arm(o, s, r);
	int fk = (int)o.i("fk"); if (fk) { FileFault f; f.kind = fk; f.at = o.i("fa") + (app && before > 0 ? before : 0); if (fk == 3) f.at = 1 + o.i("fa") % 7; f.err = 5; disk.faults[name] = f; }
	if (w == 4 || w == 5) { if (!s || !s->q) { disarm(s, r); return; } }
	r.called = true; int64_t fired0 = heap.fired;
	try { Sut k; disk.active = true;
		switch (w) {
			case 0: r.rc = writeIntoFile(&d[0], (int_t)n, (int_t)m, name.c_str(), app); break;
			case 1: r.rc = writeIntoFile(&d[0], (int_t)n, name.c_str(), app); break;
			case 2: r.rc = writeIntoFile(&iv[0], (int_t)n, name.c_str(), app); break;
			case 4: r.rc = s->q->writeQpDataIntoMatFile(name.c_str()); break;
			case 5: r.rc = s->q->writeQpWorkspaceIntoMatFile(name.c_str()); break;
		}
	} catch (std::bad_alloc&) { r.exc = 1; } catch (StepBudgetExceeded&) { r.exc = 2; } catch (...) { r.exc = 3; }
	in_sut = 0; r.faults += heap.fired - fired0;
	disarm(s, r);
	// what is on the disk now, what was asked for, and what the library itself reads back
	r.text = disk.files.count(name) ? disk.files[name] : "<none>";
	r.iv.push_back(before); r.iv.push_back(w);
	if (w == 2) for (int_t v : iv) r.iv.push_back((int64_t)v); else if (w < 2) r.dv = d;
	if (r.rc == 0 && w < 3 && r.exc == 0 && !(app && before > 0)) {
		Sut k; std::vector<double> d2(n * m); std::vector<int_t> i2(n); returnValue rr;
		if (w == 0) rr = readFromFile(&d2[0], (int_t)n, (int_t)m, name.c_str()); else if (w == 1) rr = readFromFile(&d2[0], (int_t)n, name.c_str()); else rr = readFromFile(&i2[0], (int_t)n, name.c_str());
		bool same = rr == SUCCESSFUL_RETURN;
		for (int i = 0; same && i < (w == 0 ? n * m : n); ++i) { if (w == 2) same = i2[i] == iv[i]; else same = std::fabs(d2[i] - d[i]) <= 1e-15 * std::fabs(d[i]) + 1e-300 || d2[i] == d[i]; }
		r.cout_ = same ? 1 : 0; r.nout = rr;
	} else r.cout_ = -1;
	if (app && before >= 0 && r.text.compare(0, old.size(), old) != 0) r.argmod = 20;
	if (fk) ++tr.fired[fk == 1 ? F_OPEN : fk == 2 ? F_EIO : fk == 3 ? F_SHORT : fk == 4 ? F_NOSPC : F_CLOSE];
}

// ------------------------------------------------------------------ benchmark sequences on disk
// r.dv: 7 figures of the run from disk, 7 of the run from memory, 7 of a session driven by the simulator (CPU times left out), its true residuals (3)
// r.iv: return values (from memory, own session), QPs solved by the own session, cut calls, 1 if the data read back are those written
void World::op_oqp(const Op& o, Rec& r) {
	int nv = (int)o.i("nv", 2), nc = (int)o.i("nc", 0), N = (int)o.i("N", 3); bool sparse = o.i("sparse") != 0, hot = o.i("hot", 1) != 0; int n = (int)o.i("n", 500); double lim = o.has("cpu") ? 1e-6 * (double)o.i("cpu") : 1e10;
	std::vector<double> g, lb, ub, lbA, ubA, xo, yo, fo; std::vector<QP> Q; QPSpec sp = spec_of(o, nv, nc); uint64_t bad = o.u("badmask");
	for (int k = 0; k < N; ++k) { QPSpec z = sp; z.vseed = sp.vseed + (uint64_t)k; z.vk = (bad >> k) & 1 ? sp.vk : VK_NICE; QP q = make_qp(z); if (!q.ok) { z.vk = VK_NICE; q = make_qp(z); } if (!q.ok) return; Q.push_back(q);
		auto app = [](std::vector<double>& d, const std::vector<double>& v, int len) { for (int i = 0; i < len; ++i) d.push_back(i < (int)v.size() ? v[i] : 0.0); };
		app(g, q.g, nv); app(lb, q.lb, nv); app(ub, q.ub, nv); app(lbA, q.lbA, nc); app(ubA, q.ubA, nc); app(xo, q.x, nv); app(yo, q.y, nv + nc); fo.push_back(q.f); }
	std::vector<double> H = Q[0].H, A = Q[0].A; r.q = sp; r.q.vk = bad ? sp.vk : VK_NICE;
	Options op = make_options((int)o.i("ob"), o.u("os")); op.printLevel = (PrintLevel)var.plevel;
	arm(o, 0, r); disk.files.clear(); std::vector<std::string> nm; nm.reserve(16);
	std::vector<double> dims; dims.push_back(N); dims.push_back(nv); dims.push_back(nc); dims.push_back(o.i("nec")); if (o.has("dx")) dims[(size_t)o.i("dx") % 4] = (double)o.i("dv");
	file("dims.oqp", dims, 1, o, nm, r); file("H.oqp", H, nv, o, nm, r); file("g.oqp", g, nv, o, nm, r); file("lb.oqp", lb, nv, o, nm, r); file("ub.oqp", ub, nv, o, nm, r);
	if (nc) { file("A.oqp", A, nv, o, nm, r); file("lbA.oqp", lbA, nc, o, nm, r); file("ubA.oqp", ubA, nc, o, nm, r); }
	if (o.i("opt")) { file("x_opt.oqp", xo, nv, o, nm, r); file("y_opt.oqp", yo, nv + nc, o, nm, r); file("obj_opt.oqp", fo, 1, o, nm, r); }
	r.called = true; real_t F[7]; int64_t t0 = clk.now_us; int same = -1;
	auto start = [&] { for (double& d : F) d = -7.25; F[2] = lim; };
	try { Sut k; start(); disk.active = true;
		if (o.i("rd")) {      // only read
			int_t a, b, c, d; real_t *pH = 0, *pg = 0, *pA = 0, *plb = 0, *pub = 0, *plbA = 0, *pubA = 0, *px = 0, *py = 0, *pf = 0; bool opt = o.i("opt") != 0, nullA = nc == 0 && o.i("nullA"); int nl = nc ? (int)o.i("nullA") : 0;      // bits: no place for A, lbA, ubA
			r.rc = readOqpData("d/", a, b, c, d, &pH, &pg, nullA || (nl & 1) ? 0 : &pA, &plb, &pub, nullA || (nl & 2) ? 0 : &plbA, nullA || (nl & 4) ? 0 : &pubA, opt ? &px : 0, opt ? &py : 0, opt ? &pf : 0);
			if (r.rc == 0 && !nl) {
				auto eq = [](const real_t* p, const std::vector<double>& v) { if (v.empty()) return true; if (!p) return false; for (size_t i = 0; i < v.size(); ++i) if (!(p[i] == v[i])) return false; return true; };
				same = a == N && b == nv && c == nc && d == (int_t)dims[3] && eq(pH, H) && eq(pg, g) && eq(plb, lb) && eq(pub, ub) && (nc == 0 || (eq(pA, A) && eq(plbA, lbA) && eq(pubA, ubA))) && (!opt || (eq(px, xo) && eq(py, yo) && eq(pf, fo)));
				delete[] pH; delete[] pg; delete[] plb; delete[] pub; if (nc) { delete[] pA; delete[] plbA; delete[] pubA; } if (opt) { delete[] px; delete[] py; delete[] pf; }
			}
		}
		else if (o.i("simple")) { int_t w = n; real_t c = lim; r.rc = runOqpBenchmark("d/", sparse ? BT_TRUE : BT_FALSE, op, w, c, F[4], F[5], F[6]); F[0] = (double)w; F[2] = c; }
		else r.rc = runOqpBenchmark("d/", sparse ? BT_TRUE : BT_FALSE, hot ? BT_TRUE : BT_FALSE, op, n, F[0], F[1], F[2], F[3], F[4], F[5], F[6]);
	} catch (std::bad_alloc&) { r.exc = 1; } catch (StepBudgetExceeded&) { r.exc = 2; } catch (...) { r.exc = 3; }
	in_sut = 0; r.clkreads = clk.reads; for (double d : F) r.dv.push_back(d);
	for (auto& x : disk.files) (void)x; disk.faults.clear();
	if (r.exc == 0 && !o.i("rd") && disk.open_now) r.argmod = 30; if (o.i("rd") && disk.open_now) r.argmod = 30;
	int rc2 = -1, rc3 = -1, cuts = 0, done = 0; double own[7] = {0, 0, 0, 0, 0, 0, 0};
	if (r.exc == 0 && !o.i("rd")) try {
		clk.now_us = t0; { ClockCfg c = clk.cfg; clk.arm(c); } start();
		{ Sut k; if (nc) { if (o.i("simple")) { int_t w = n; real_t c = lim; rc2 = solveOqpBenchmark(N, nv, nc, 0, &H[0], &g[0], &A[0], &lb[0], &ub[0], &lbA[0], &ubA[0], sparse ? BT_TRUE : BT_FALSE, op, w, c, F[4], F[5], F[6]); F[0] = (double)w; F[2] = c; }
				else rc2 = solveOqpBenchmark(N, nv, nc, 0, &H[0], &g[0], &A[0], &lb[0], &ub[0], &lbA[0], &ubA[0], sparse ? BT_TRUE : BT_FALSE, hot ? BT_TRUE : BT_FALSE, op, n, F[0], F[1], F[2], F[3], F[4], F[5], F[6]); }
			else { if (o.i("simple")) { int_t w = n; real_t c = lim; rc2 = solveOqpBenchmark(N, nv, &H[0], &g[0], &lb[0], &ub[0], sparse ? BT_TRUE : BT_FALSE, op, w, c, F[4], F[5], F[6]); F[0] = (double)w; F[2] = c; }
				else rc2 = solveOqpBenchmark(N, nv, &H[0], &g[0], &lb[0], &ub[0], sparse ? BT_TRUE : BT_FALSE, hot ? BT_TRUE : BT_FALSE, op, n, F[0], F[1], F[2], F[3], F[4], F[5], F[6]); } }
		for (double d : F) r.dv.push_back(d);
		// the same sequence with a session of our own
		clk.now_us = t0; { ClockCfg c = clk.cfg; clk.arm(c); }
		MatData* m = lend(Q[0], sparse ? 3 : 1, false);
		{ Sut k; QProblemB* b = 0; QProblem* q = 0; if (nc) b = q = new QProblem(nv, nc); else b = new QProblemB(nv); if (nc) q->setOptions(op); else b->setOptions(op);
			std::vector<double> x((size_t)nv, 0.0), y((size_t)(nv + nc), 0.0); rc3 = 0;
			for (int j = 0; j < N; ++j) {
				int_t w = n; real_t c = lim; const real_t *G = &g[(size_t)j * nv], *L = &lb[(size_t)j * nv], *U = &ub[(size_t)j * nv], *LA = nc ? &lbA[(size_t)j * nc] : 0, *UA = nc ? &ubA[(size_t)j * nc] : 0; returnValue v;
				if (j == 0 || !(hot || o.i("simple"))) v = nc ? q->init(m->Hm, G, m->Am, L, U, LA, UA, w, &c) : b->init(m->Hm, G, L, U, w, &c);
				else v = nc ? q->hotstart(G, L, U, LA, UA, w, &c) : b->hotstart(G, L, U, w, &c);
				if (v != SUCCESSFUL_RETURN && v != RET_MAX_NWSR_REACHED) { rc3 = v; break; }
				if (v == RET_MAX_NWSR_REACHED) ++cuts; else ++done;
				own[0] = std::max(own[0], (double)w); own[1] += (double)w / N; own[2] = std::max(own[2], (double)c); own[3] += (double)c / N;
				bool ok = b->getPrimalSolution(&x[0]) == SUCCESSFUL_RETURN && b->getDualSolution(&y[0]) == SUCCESSFUL_RETURN; if (!ok) { r.text += " noiterate"; continue; }
				for (int i = 0; i < nv; ++i) {
					double s = G[i] - y[(size_t)i]; for (int l = 0; l < nv; ++l) s += H[(size_t)i * nv + l] * x[(size_t)l]; for (int l = 0; l < nc; ++l) s -= A[(size_t)l * nv + i] * y[(size_t)(nv + l)];
					own[4] = std::max(own[4], std::fabs(s)); own[5] = std::max(own[5], std::max(L[i] - x[(size_t)i], x[(size_t)i] - U[i]));
					double yi = y[(size_t)i]; if (yi > 1e-12) own[6] = std::max(own[6], std::fabs((x[(size_t)i] - L[i]) * yi)); if (yi < -1e-12) own[6] = std::max(own[6], std::fabs((x[(size_t)i] - U[i]) * yi));
				}
				for (int l = 0; l < nc; ++l) { double a = 0; for (int i = 0; i < nv; ++i) a += A[(size_t)l * nv + i] * x[(size_t)i]; own[5] = std::max(own[5], std::max(LA[l] - a, a - UA[l])); double yi = y[(size_t)(nv + l)]; if (yi > 1e-12) own[6] = std::max(own[6], std::fabs((a - LA[l]) * yi)); if (yi < -1e-12) own[6] = std::max(own[6], std::fabs((a - UA[l]) * yi)); }
			}
			delete b; }
		for (double d : own) r.dv.push_back(d);
	} catch (std::bad_alloc&) { r.exc = 3; } catch (StepBudgetExceeded&) { r.exc = 2; } catch (...) { r.exc = 3; }
	in_sut = 0; disarm(0, r); if (cuts) ++tr.fired[o.has("cpu") ? F_TIMELIM : F_BUDGET];
	r.iv.clear(); r.iv.push_back(rc2); r.iv.push_back(rc3); r.iv.push_back(done); r.iv.push_back(cuts); r.iv.push_back(same); r.nout = 0;
}

// ------------------------------------------------------------------ the C interface, and the same calls on the classes
#ifdef SIM_CAPI
template <class O> static void tweak_all(O& o, uint64_t os) {
	if (!os) return; Rng r(os);
	#define MAYBE(f, v) { bool t = r.chance(0.25); uint64_t z = r.next(); (void)z; if (t) o.f = (decltype(o.f))(v); }
	MAYBE(enableRamping, z & 1) MAYBE(enableFlippingBounds, z & 1) MAYBE(enableRegularisation, z & 1) MAYBE(enableFullLITests, z & 1) MAYBE(enableNZCTests, z & 1) MAYBE(enableDriftCorrection, z % 4)
	MAYBE(enableCholeskyRefactorisation, z % 4) MAYBE(enableEqualities, z & 1) MAYBE(numRefinementSteps, z % 4) MAYBE(initialStatusBounds, (int)(z % 3) - 1) MAYBE(numRegularisationSteps, z % 3)
	MAYBE(terminationTolerance, o.terminationTolerance * (double)(1 + z % 9)) MAYBE(boundTolerance, o.boundTolerance * (double)(1 + z % 9)) MAYBE(boundRelaxation, o.boundRelaxation * 0.1 * (double)(1 + z % 9)) MAYBE(epsNum, o.epsNum * (double)(1 + z % 9)) MAYBE(epsDen, o.epsDen * (double)(1 + z % 9))
	MAYBE(maxPrimalJump, o.maxPrimalJump * (double)(1 + z % 9)) MAYBE(maxDualJump, o.maxDualJump * (double)(1 + z % 9)) MAYBE(initialRamping, 0.1 * (double)(1 + z % 9)) MAYBE(finalRamping, 0.2 * (double)(1 + z % 9)) MAYBE(initialFarBounds, o.initialFarBounds * (double)(1 + z % 9)) MAYBE(growFarBounds, 2.0 * (double)(1 + z % 9))
	MAYBE(epsFlipping, o.epsFlipping * (double)(1 + z % 9)) MAYBE(epsRegularisation, o.epsRegularisation * (double)(1 + z % 99)) MAYBE(epsIterRef, o.epsIterRef * (double)(1 + z % 9)) MAYBE(epsLITests, o.epsLITests * (double)(1 + z % 9)) MAYBE(epsNZCTests, o.epsNZCTests * (double)(1 + z % 9))
	MAYBE(enableDropInfeasibles, z % 4 == 0) MAYBE(dropBoundPriority, z % 4) MAYBE(dropEqConPriority, z % 4) MAYBE(dropIneqConPriority, z % 4)
	#undef MAYBE
}
void World::c_end() { if (var.capi) { Sut g; QProblem_cleanup(); QProblemB_cleanup(); SQProblem_cleanup(); } else for (auto& b : cobj) { Sut g; delete b; b = 0; } for (auto& e : ckeep) e->done(); ckeep.clear(); }
void World::op_c(const Op& o, Rec& r) {
	int k = (int)o.i("k"); const bool C = var.capi; int_t ret = -1; r.cls = "QBS"[k];
	if (o.name == "c_cl") {
		guarded(o, 0, r, [&] { if (C) ret = k == 0 ? QProblem_cleanup() : k == 1 ? QProblemB_cleanup() : SQProblem_cleanup(); else { delete cobj[k]; cobj[k] = 0; ret = 0; } }); r.rc = (int)ret; return;
	}
	if (o.name == "c_set") {
		int_t nv = o.i("nv"), nc = o.i("nc"), ht = o.i("ht", 6); bool valid = nv >= 1 && (k == 1 || nc >= 0) && ht >= 0 && ht <= 6;
		guarded(o, 0, r, [&] {
			if (C) ret = k == 0 ? QProblem_setup(nv, nc, ht) : k == 1 ? QProblemB_setup(nv, ht) : SQProblem_setup(nv, nc, ht);
			else if (valid) { delete cobj[k]; cobj[k] = 0; cobj[k] = k == 0 ? new QProblem(nv, nc, (HessianType)ht) : k == 1 ? new QProblemB(nv, (HessianType)ht) : new SQProblem(nv, nc, (HessianType)ht); ret = 0; }
		});
		if (valid && r.exc == 0) { cnv[k] = (int)nv; cnc[k] = k == 1 ? 0 : (int)nc; } r.rc = (int)ret; return;
	}
	bool init = o.name == "c_init"; int nv = cnv[k] ? cnv[k] : 2, nc = cnv[k] ? cnc[k] : 1; QPSpec sp = spec_of(o, nv, nc); QP q = make_qp(sp); if (!q.ok) { sp.vk = VK_NICE; q = make_qp(sp); } if (!q.ok) return;
	r.q = sp; r.hasqp = true; Arr g, lb, ub, lbA, ubA, x, y, obj; ckeep.emplace_back(new Arr); Arr& H = *ckeep.back(); ckeep.emplace_back(new Arr); Arr& A = *ckeep.back(); int nb = (int)o.i("nb"), nd = (int)o.i("nd"), nul = (int)o.i("nul");
	H.init(q.H); if (nc) A.init(q.A); g.init(q.g);
	if (!((nb & 1) && all(q.lb, -INF))) lb.init(q.lb); if (!((nb & 2) && all(q.ub, INF))) ub.init(q.ub); if (nc && !((nb & 4) && all(q.lbA, -INF))) lbA.init(q.lbA); if (nc && !((nb & 8) && all(q.ubA, INF))) ubA.init(q.ubA);
	if (nd & 1) H.done(); if (nd & 2) g.done(); if (nd & 4) A.done();
	x.init(std::vector<double>((size_t)nv, -7.25)); y.init(std::vector<double>((size_t)(nv + nc), -7.25)); obj.init(std::vector<double>(1, -7.25));
	int_t n = (int_t)o.i("n", 500), status = -99; bool cpu = o.has("cpu"), want = cpu || o.i("ct"); real_t ct = cpu ? 1e-6 * (double)o.i("cpu") : 1e10; r.nin = n; r.cin = cpu ? ct : -1;
	qpOASES_Options co; for (size_t i = 0; i + 8 <= sizeof co; i += 8) memcpy((char*)&co + i, &var.fill, 8); Options cpp; bool withopt = init && o.has("om"); int om = (int)o.i("om"); int_t oi = 0;
	if (withopt) {
		if (C) { Sut kk; oi = qpOASES_Options_init(&co, om); tweak_all(co, o.u("os")); co.printLevel = var.plevel; }
		else { if (om == 1) cpp.setToReliable(); else if (om == 2) cpp.setToMPC(); else cpp.setToDefault(); oi = om >= 0 && om <= 2 ? 0 : -1; tweak_all(cpp, o.u("os")); cpp.printLevel = (PrintLevel)var.plevel; }
		r.iv.push_back(oi); if (oi != 0) withopt = false;
	}
	int_t* pn = (nul & 1) ? 0 : &n; double *px = (nul & 2) ? 0 : x.get(), *py = (nul & 4) ? 0 : y.get(), *po = (nul & 8) ? 0 : obj.get(); int_t* ps = (nul & 16) ? 0 : &status; real_t* pc = want ? &ct : 0;
	QProblemB* b = cobj[k]; QProblem* qq = k == 1 ? 0 : (QProblem*)b; SQProblem* sq = k == 2 ? (SQProblem*)b : 0;
	guarded(o, 0, r, [&] {
		if (C) {
			const qpOASES_Options* op = withopt ? &co : 0;
			if (init) ret = k == 0 ? QProblem_init(H.get(), g.get(), A.get(), lb.get(), ub.get(), lbA.get(), ubA.get(), pn, pc, op, px, py, po, ps) : k == 1 ? QProblemB_init(H.get(), g.get(), lb.get(), ub.get(), pn, pc, op, px, py, po, ps) : SQProblem_init(H.get(), g.get(), A.get(), lb.get(), ub.get(), lbA.get(), ubA.get(), pn, pc, op, px, py, po, ps);
			else ret = k == 0 ? QProblem_hotstart(g.get(), lb.get(), ub.get(), lbA.get(), ubA.get(), pn, pc, px, py, po, ps) : k == 1 ? QProblemB_hotstart(g.get(), lb.get(), ub.get(), pn, pc, px, py, po, ps) : SQProblem_hotstart(H.get(), g.get(), A.get(), lb.get(), ub.get(), lbA.get(), ubA.get(), pn, pc, px, py, po, ps);
		} else if (b && !nul) {
			if (withopt) b->setOptions(cpp); returnValue v; const double *h = H.get(), *a = A.get();
			if (init) v = k == 1 ? b->init(h, g.get(), lb.get(), ub.get(), n, pc) : k == 0 ? qq->init(h, g.get(), a, lb.get(), ub.get(), lbA.get(), ubA.get(), n, pc) : sq->init(h, g.get(), a, lb.get(), ub.get(), lbA.get(), ubA.get(), n, pc);
			else v = k == 1 ? b->hotstart(g.get(), lb.get(), ub.get(), n, pc) : k == 0 ? qq->hotstart(g.get(), lb.get(), ub.get(), lbA.get(), ubA.get(), n, pc) : sq->hotstart(h, g.get(), a, lb.get(), ub.get(), lbA.get(), ubA.get(), n, pc);
			b->getPrimalSolution(px); b->getDualSolution(py); *po = b->getObjVal(); status = getSimpleStatus(v); ret = 0;
		}
	});
	r.rc = (int)ret; r.nout = n; r.cout_ = want ? ct : -1; r.iv.push_back(status);
	r.dv.assign(x.p, x.p + nv); r.dv.insert(r.dv.end(), y.p, y.p + nv + nc); r.dv.push_back(*obj.p); r.dv.push_back(want ? ct : -1); r.dv.push_back((double)status); r.dv.push_back((double)oi);
	if (!g.done()) r.argmod = 4; if (!lb.done() || !ub.done()) r.argmod = 5; if (!lbA.done() || !ubA.done()) r.argmod = 6; for (auto& e : ckeep) if (!e->same()) r.argmod = 7; x.done(); y.done(); obj.done(); // the solver keeps using the matrices given to it
	if (r.rc == 0 && status == 1) ++tr.fired[cpu && n < r.nin ? F_TIMELIM : F_BUDGET];
}
#else
void World::c_end() {}
void World::op_c(const Op&, Rec&) {}
#endif

#ifdef SIM_MEX
#include "exec_mex_ops.hpp"
#endif
#ifdef SIM_BLK
#include "exec_blk_ops.hpp"
#endif

// ------------------------------------------------------------------ coroutines
struct Co { ucontext_t ctx; std::vector<char> stack; std::vector<int> ops; size_t next = 0; bool done = false; int in_sut_ = 0; Clock clk_; int64_t fail_at = -1, count = 0, budget = -1; bool pers = false; };
static World* cw; static std::vector<Co*>* cos_; static int cur; static Rng* crng; static ucontext_t cmain; static int cpct; static uint64_t csched; static int64_t cswitches;
static void co_body() { Co* c = (*cos_)[cur]; clk = c->clk_; while (c->next < c->ops.size()) { int i = c->ops[c->next++]; cw->step(i); c = (*cos_)[cur]; } c->done = true; c->clk_ = clk; swapcontext(&c->ctx, &cmain); }
static void co_yield(int) {
	Out g;
	if (crng->range(0, 9999) >= cpct) return;
	Co* c = (*cos_)[cur];
	// per-session simulator state travels with the session
	c->in_sut_ = g.keep; c->clk_ = clk; c->fail_at = heap.fail_at; c->pers = heap.fail_persist; c->count = heap.count; c->budget = heap.budget;
	swapcontext(&c->ctx, &cmain);
	c = (*cos_)[cur];
	clk = c->clk_; heap.fail_at = c->fail_at; heap.fail_persist = c->pers; heap.count = c->count; heap.budget = c->budget; g.keep = c->in_sut_;
}
void World::run_interleaved() {
	std::map<int, std::vector<int> > by; for (int i = 0; i < (int)prog.ops.size(); ++i) by[(int)prog.ops[i].i("grp", 0)].push_back(i);
	std::vector<Co*> cs; for (auto& p : by) { Co* c = new Co(); c->ops = p.second; c->stack.resize(256 * 1024); c->clk_ = clk; cs.push_back(c); }
	Rng r(mix(var.schedseed, 4242)); cw = this; cos_ = &cs; crng = &r; cpct = var.switchpct; csched = 7; cswitches = 0;
	for (size_t i = 0; i < cs.size(); ++i) { getcontext(&cs[i]->ctx); cs[i]->ctx.uc_stack.ss_sp = cs[i]->stack.data(); cs[i]->ctx.uc_stack.ss_size = cs[i]->stack.size(); cs[i]->ctx.uc_link = &cmain; makecontext(&cs[i]->ctx, co_body, 0); }
	yield_hook = co_yield;
	int last = -1;
	for (;;) {
		std::vector<int> live; for (size_t i = 0; i < cs.size(); ++i) if (!cs[i]->done) live.push_back((int)i);
		if (live.empty()) break;
		cur = live[(size_t)r.range(0, (int64_t)live.size() - 1)];
		csched = mix(csched, (uint64_t)cur); if (cur != last) { ++cswitches; last = cur; }
		swapcontext(&cmain, &cs[cur]->ctx);
	}
	yield_hook = 0; tr.sched = csched; tr.switches = cswitches; tr.fired[F_SWITCH] += cswitches;
	for (Co* c : cs) { tr.sim_us += c->clk_.simulated_us; delete c; }
}

void run_here(const Prog& p, const Variant& v, Trace& t, volatile int* progress) {
	heap.fill = v.fill; heap.error = 0; heap.live = heap.live_bytes = 0; heap.fired = 0;
	clk = Clock(); if (v.start >= 0) clk.now_us = v.start;
	disk.reset(); linsol::reset();
	{
		World w(p, v, t, progress);
		if (v.quiet) { w.lastop.assign(p.ops.size(), 0); std::map<int, int> last; for (int i = 0; i < (int)p.ops.size(); ++i) if (p.ops[i].name != "obs" && p.ops[i].name != "del") last[(int)p.ops[i].i("s", -1)] = i; for (auto& q : last) w.lastop[q.second] = 1; }
		w.setup_stream();
		if (v.interleave) w.run_interleaved(); else w.run_sequential();
		w.cleanup(); w.close_stream();
	}
	heap_quarantine_check();
	if (heap.error && t.heap_error.empty()) t.heap_error = std::string(heap.error) + " at the end";
	if (v.keepfiles) t.files = disk.files;
	t.leaked = heap.live - t.heap_base;
	t.fired[F_ALLOC] += heap.fired; t.fired[F_JUMP] += clk.fired_jumps; t.fired[F_STALL] += clk.fired_stalls;
	t.fired[F_OPEN] += disk.fired_open; t.fired[F_EIO] += disk.fired_eio; t.fired[F_SHORT] += disk.fired_short; t.fired[F_NOSPC] += disk.fired_enospc; t.fired[F_CLOSE] += disk.fired_close;
	t.fired[F_LINSOL] += linsol::fired();
	t.sim_us += clk.simulated_us;
	heap_flush_quarantine();
}

static char* shm = 0; static const size_t SHM = (size_t)24 << 20;
Trace run_isolated(const Prog& p, const Variant& v) {
	if (!shm) { shm = (char*)mmap(0, SHM, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0); }
	volatile int64_t* head = (volatile int64_t*)shm; head[0] = -1; head[1] = -1;
	fflush(stdout); fflush(stderr);
	pid_t pid = fork();
	if (pid == 0) {
		int fd = open("/dev/null", O_RDWR); dup2(fd, 1); dup2(fd, 0); if (!getenv("SIM_STDERR")) dup2(fd, 2);
		struct itimerval it; memset(&it, 0, sizeof it); it.it_value.tv_sec = 20; setitimer(ITIMER_VIRTUAL, &it, 0);
		signal(SIGVTALRM, SIG_DFL); struct rlimit rl; rl.rlim_cur = rl.rlim_max = 0; setrlimit(RLIMIT_CORE, &rl);
		Trace t; run_here(p, v, t, (volatile int*)(shm + 8));
		std::string s = pack(t); if (s.size() + 64 < SHM) { memcpy(shm + 64, s.data(), s.size()); head[0] = (int64_t)s.size(); }
		_exit(0);
	}
	int st = 0; while (waitpid(pid, &st, 0) < 0 && errno == EINTR) {}
	Trace t;
	if (head[0] >= 0 && WIFEXITED(st) && WEXITSTATUS(st) == 0) { if (unpack(std::string(shm + 64, (size_t)head[0]), t)) return t; }
	t = Trace(); t.at_op = *(volatile int*)(shm + 8);
	if (WIFSIGNALED(st)) { t.signal = WTERMSIG(st); if (t.signal == SIGVTALRM || t.signal == SIGKILL) { t.hang = t.signal == SIGVTALRM; } }
	else t.signal = 1000 + WEXITSTATUS(st);
	return t;
}
} // namespace sim
