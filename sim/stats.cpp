#include <cstdio>
#include <sstream>
#include "judge.hpp"
namespace sim {
uint64_t behaviour_of(const Trace& t) {
	Hash h; for (auto& r : t.recs) { h.str(r.name); h.add(r.cls); h.add(r.sess); h.add(r.exc); h.add((uint64_t)(int64_t)r.rc); h.add(r.nout); h.add(r.o.status); for (double w : r.o.ws) h.dbl(w); if (r.name == "oqp" && r.dv.size() > 1) { h.dbl(r.dv[0]); h.dbl(r.dv[1]); h.str(r.text); } if (r.name == "write") { h.add(r.text.size()); h.add(r.iv.size()); } }
	h.add(t.signal); return h.h;
}
bool nontrivial(const Trace& t) {
	for (int i = 0; i < F_N; ++i) if (t.fired[i] && i != F_GARBAGE) return true;
	for (auto& r : t.recs) if (r.called && ((r.hasqp && r.rc != 0) || (r.name[0] == 'x' && r.iv.size() > 2 && (r.rc || r.iv[2])))) return true;
	return false;
}
void Stats::add(const Trace& t) {
	++executions; sim_us += t.sim_us; switches += t.switches; bool f = false;
	for (int i = 0; i < F_N; ++i) { fired[i] += t.fired[i]; if (t.fired[i]) f = true; }
	if (f) ++faulty_runs; else ++clean_runs;
	for (auto& r : t.recs) if (r.called) { ++calls; if (r.hasqp) { if (r.exc) ++outcomes[r.name + (r.exc == 1 ? ": out of memory" : ": aborted")]; else ++outcomes[r.name + ": " + rc_name(r.rc)]; } }
	if (t.sched) schedules.insert(t.sched);
}
void Stats::run(uint64_t b, bool nt) { if (nt) { ++nontrivial; if (behaviours.size() < 400000) behaviours.insert(b); } }
void Stats::run(const Trace& t) { run(behaviour_of(t), sim::nontrivial(t)); }
static std::string esc(const std::string& s) { std::string r; for (char c : s) { if (c == '"' || c == '\\') { r += '\\'; r += c; } else if (c == '\n') r += "\\n"; else if ((unsigned char)c < 32) r += ' '; else r += c; } return r; }
std::string Stats::str() const {
	std::ostringstream o;
	o << "{\"runs\":" << runs << ",\"nontrivial\":" << nontrivial << ",\"executions\":" << executions << ",\"calls\":" << calls << ",\"sim_us\":" << sim_us << ",\"clean\":" << clean_runs << ",\"faulty\":" << faulty_runs << ",\"switches\":" << switches
	  << ",\"behaviours\":" << behaviours.size() << ",\"schedules\":" << schedules.size() << ",\"faults\":{";
	bool first = true; for (int i = 0; i < F_N; ++i) if (fired[i]) { o << (first ? "" : ",") << "\"" << fault_names[i] << "\":" << fired[i]; first = false; }
	o << "},\"outcomes\":{"; first = true; for (auto& p : outcomes) { o << (first ? "" : ",") << "\"" << esc(p.first) << "\":" << p.second; first = false; }
	o << "},\"counts\":{"; first = true; for (auto& p : counts) { o << (first ? "" : ",") << "\"" << esc(p.first) << "\":" << p.second; first = false; }
	o << "},\"samples\":["; first = true; for (auto& s : samples) { o << (first ? "" : ",") << "\"" << esc(s) << "\""; first = false; } o << "]}";
	return o.str();
}
std::string Stats::dump() const {
	std::ostringstream o;
	o << "n " << runs << " " << nontrivial << " " << executions << " " << calls << " " << sim_us << " " << clean_runs << " " << faulty_runs << " " << switches << "\n";
	for (int i = 0; i < F_N; ++i) o << "f " << i << " " << fired[i] << "\n";
	for (auto& p : outcomes) o << "o " << p.second << " " << p.first << "\n";
	for (auto& p : counts) o << "c " << p.second << " " << p.first << "\n";
	for (uint64_t b : behaviours) o << "b " << b << "\n"; for (uint64_t b : schedules) o << "s " << b << "\n";
	for (auto& s : samples) { std::string e; for (char c : s) e += c == '\n' ? '\x01' : c; o << "x " << e << "\n"; }
	return o.str();
}
void Stats::merge_text(const std::string& s) {
	std::istringstream i(s); std::string line;
	while (std::getline(i, line)) {
		if (line.size() < 3) continue; std::istringstream l(line.substr(2)); int64_t v; std::string k;
		switch (line[0]) {
			case 'n': { int64_t* p[] = {&runs, &nontrivial, &executions, &calls, &sim_us, &clean_runs, &faulty_runs, &switches}; for (auto q : p) { l >> v; *q += v; } } break;
			case 'f': { int n; l >> n >> v; fired[n] += v; } break;
			case 'o': l >> v; std::getline(l, k); outcomes[k.substr(1)] += v; break;
			case 'c': l >> v; std::getline(l, k); counts[k.substr(1)] += v; break;
			case 'b': { uint64_t b; l >> b; behaviours.insert(b); } break;
			case 's': { uint64_t b; l >> b; schedules.insert(b); } break;
			case 'x': { std::string e = line.substr(2); for (char& c : e) if (c == '\x01') c = '\n'; if (samples.size() < 3) samples.push_back(e); } break;
		}
	}
}
} // namespace sim
