#include "prog.hpp"
#include <sstream>
namespace sim {
std::string Prog::str() const {
	std::string r = "prog prop=" + prop + " seed=" + std::to_string(seed);
	for (auto& p : par) r += " " + p.first + "=" + p.second;
	r += "\n";
	for (auto& o : ops) r += o.str() + "\n";
	return r;
}
bool Prog::parse(const std::string& text) {
	std::istringstream in(text); std::string line; bool head = false;
	*this = Prog();
	while (std::getline(in, line)) {
		if (line.empty() || line[0] == '#') continue;
		std::istringstream ls(line); std::string w; ls >> w; Op o(w);
		while (ls >> w) { size_t e = w.find('='); if (e == std::string::npos) return false; o.kv.push_back(std::make_pair(w.substr(0, e), w.substr(e + 1))); }
		if (o.name == "prog") { head = true; prop = o.s("prop"); seed = o.u("seed"); o.erase("prop"); o.erase("seed"); par = o.kv; }
		else ops.push_back(o);
	}
	return head;
}
} // namespace sim
