// Programs: the complete description of one simulated execution, as text.
#pragma once
#include <cstdint>
#include <cstdlib>
#include <string>
#include <utility>
#include <vector>

namespace sim {
struct Op {
	std::string name;
	std::vector<std::pair<std::string, std::string> > kv;
	Op() {}
	explicit Op(const std::string& n) : name(n) {}
	const std::string* find(const std::string& k) const { for (auto& p : kv) if (p.first == k) return &p.second; return 0; }
	bool has(const std::string& k) const { return find(k) != 0; }
	int64_t i(const std::string& k, int64_t d = 0) const { const std::string* v = find(k); return v ? strtoll(v->c_str(), 0, 10) : d; }
	uint64_t u(const std::string& k, uint64_t d = 0) const { const std::string* v = find(k); return v ? strtoull(v->c_str(), 0, 10) : d; }
	std::string s(const std::string& k, const std::string& d = "") const { const std::string* v = find(k); return v ? *v : d; }
	Op& set(const std::string& k, const std::string& v) { for (auto& p : kv) if (p.first == k) { p.second = v; return *this; } kv.push_back(std::make_pair(k, v)); return *this; }
	Op& set(const std::string& k, int64_t v) { return set(k, std::to_string(v)); }
	void erase(const std::string& k) { for (size_t j = 0; j < kv.size(); ++j) if (kv[j].first == k) { kv.erase(kv.begin() + j); return; } }
	std::string str() const { std::string r = name; for (auto& p : kv) r += " " + p.first + "=" + p.second; return r; }
};
struct Prog {
	std::string prop; uint64_t seed = 0;
	std::vector<std::pair<std::string, std::string> > par;      // program-wide parameters
	std::vector<Op> ops;
	const std::string* find(const std::string& k) const { for (auto& p : par) if (p.first == k) return &p.second; return 0; }
	int64_t i(const std::string& k, int64_t d = 0) const { const std::string* v = find(k); return v ? strtoll(v->c_str(), 0, 10) : d; }
	uint64_t u(const std::string& k, uint64_t d = 0) const { const std::string* v = find(k); return v ? strtoull(v->c_str(), 0, 10) : d; }
	std::string s(const std::string& k, const std::string& d = "") const { const std::string* v = find(k); return v ? *v : d; }
	Prog& set(const std::string& k, const std::string& v) { for (auto& p : par) if (p.first == k) { p.second = v; return *this; } par.push_back(std::make_pair(k, v)); return *this; }
	Prog& set(const std::string& k, int64_t v) { return set(k, std::to_string(v)); }
	std::string str() const;
	bool parse(const std::string& text);
};
} // namespace sim
