// Brute-force meaning of a network: all accepting paths for a word.
#ifndef NETREF_HPP
#define NETREF_HPP
#include "common.hpp"
#include <sstream>
#include <iomanip>
#include <cmath>
namespace vf {
using namespace mc;
// op on the feature registers; false if the path is forbidden
inline bool flagOp(const string & s, std::map<string, string> & reg) {
	char op = s[1];
	string body = s.substr(3, s.size() - 4), feat = body, val; bool has = false;
	size_t dot = body.find('.');
	if (dot != string::npos) { feat = body.substr(0, dot); val = body.substr(dot + 1); has = true; }
	string cur = reg.count(feat) ? reg[feat] : "";
	switch (op) {
	case 'P': reg[feat] = val; return true;
	case 'C': reg.erase(feat); return true;
	case 'U': if (cur.empty()) { reg[feat] = val; return true; } return cur == val;
	case 'R': return has ? cur == val : !cur.empty();
	case 'D': return has ? cur != val : cur.empty();
	}
	return false;
}
typedef std::map<std::pair<string, int>, int> Bag;
inline void enumerate(const Net & n, int st, const vector<string> & word, size_t pos, std::map<string, string> reg, string out, int weight, Bag & bag, int depth) {
	if (depth > 60) return;
	const State & s = n.states[st];
	if (s.final && pos == word.size()) bag[{out, weight + s.weight}]++;
	for (auto & a : s.arcs) {
		string o = isFlag(a.out) ? "" : a.out;
		if (a.in.empty()) enumerate(n, a.target, word, pos, reg, out + o, weight + a.weight, bag, depth + 1);
		else if (isFlag(a.in)) { auto r = reg; if (flagOp(a.in, r)) enumerate(n, a.target, word, pos, r, out + o, weight + a.weight, bag, depth + 1); }
		else if (pos < word.size() && word[pos] == a.in) enumerate(n, a.target, word, pos + 1, reg, out + o, weight + a.weight, bag, depth + 1);
	}
}
// a cycle that consumes nothing makes the set of paths infinite
inline bool epsCycle(const Net & n) {
	size_t k = n.states.size();
	vector<int> color(k, 0);
	std::function<bool(int)> dfs = [&](int s) {
		color[s] = 1;
		for (auto & a : n.states[s].arcs) if (a.in.empty() || isFlag(a.in)) {
			if (color[a.target] == 1) return true;
			if (color[a.target] == 0 && dfs(a.target)) return true;
		}
		color[s] = 2;
		return false;
	};
	for (size_t i = 0; i < k; i++) if (!color[i] && dfs((int) i)) return true;
	return false;
}
inline bool hasDead(const Net & n) { for (auto & s : n.states) if (s.arcs.empty() && !s.final) return true; return false; }
inline string probText(int w) { std::stringstream ss; ss << std::setprecision(9) << exp(-0.01 * (double) w); return ss.str(); }

inline string describe(const Net & n, bool weighted, bool big) {
	string d = weighted ? "weighted" : "unweighted"; if (big) d += " big-endian";
	for (size_t i = 0; i < n.states.size(); i++) {
		if (n.states[i].arcs.size() > 12) { d += " s" + num(i) + ":" + num(n.states[i].arcs.size()) + " arcs"; continue; }
		d += " s" + num(i) + (n.states[i].final ? "F" + num(n.states[i].weight) : "") + "{";
		for (auto & a : n.states[i].arcs) d += a.in + ":" + a.out + ">" + num(a.target) + (a.weight ? "/" + num(a.weight) : "") + " ";
		d += "}";
	}
	return d;
}
}
#endif
