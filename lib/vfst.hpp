// Independent writer for the compiled network format and helpers that lay out scratch dictionaries.
#ifndef VFST_HPP
#define VFST_HPP
#include "mc.hpp"
namespace vf {
using std::string; using std::vector; using std::pair; using std::map;

struct Arc { string in, out; int target; int weight; };
struct State { vector<Arc> arcs; bool final = false; int weight = 0; };
struct Net {
	vector<State> states{1};
	int add() { states.emplace_back(); return (int) states.size() - 1; }
	void arc(int from, const string & in, const string & out, int to, int w = 0) { states[from].arcs.push_back(Arc{in, out, to, w}); }
	void fin(int s, int w = 0) { states[s].final = true; states[s].weight = w; }
	// trie insertion: one path per entry
	void path(const vector<pair<string, string>> & p, int finalWeight = 0) {
		int s = 0;
		for (auto & x : p) {
			int t = -1;
			for (auto & a : states[s].arcs) if (a.in == x.first && a.out == x.second) { t = a.target; break; }
			if (t < 0) { t = add(); arc(s, x.first, x.second, t); }
			s = t;
		}
		fin(s, finalWeight);
	}
};
inline vector<string> splitUtf8(const string & s) {
	vector<string> r;
	for (size_t i = 0; i < s.size();) {
		unsigned char c = (unsigned char) s[i];
		size_t n = c < 0x80 ? 1 : c < 0xE0 ? 2 : c < 0xF0 ? 3 : 4;
		r.push_back(s.substr(i, n)); i += n;
	}
	return r;
}
// split markup into symbols: [..] and @..@ are single symbols, others single characters
inline vector<string> symbols(const string & s) {
	vector<string> r;
	for (size_t i = 0; i < s.size();) {
		if (s[i] == '[') { size_t e = s.find(']', i); r.push_back(s.substr(i, e - i + 1)); i = e + 1; }
		else if (s[i] == '@' && s.find('@', i + 1) != string::npos && i + 2 < s.size() && s[i + 2] == '.') { size_t e = s.find('@', i + 1); r.push_back(s.substr(i, e - i + 1)); i = e + 1; }
		else { unsigned char c = (unsigned char) s[i]; size_t n = c < 0x80 ? 1 : c < 0xE0 ? 2 : c < 0xF0 ? 3 : 4; r.push_back(s.substr(i, n)); i += n; }
	}
	return r;
}
inline bool isFlag(const string & s) { return s.size() >= 5 && s[0] == '@' && s[2] == '.' && s.back() == '@'; }
inline bool isMulti(const string & s) { return s.size() > 1 && s[0] == '['; }

// Finnish lexicon entry: the text of [Xp]..[X] (base form) and the tags consume no input
inline vector<pair<string, string>> finnishPath(const string & markup) {
	vector<pair<string, string>> r; bool base = false;
	for (auto & s : symbols(markup)) {
		if (isMulti(s)) { if (s == "[Xp]" || s == "[Xj]" || s == "[Xr]" || s == "[Xs]") base = true; else if (s == "[X]") base = false; r.push_back({"", s}); }
		else if (isFlag(s)) r.push_back({s, s});
		else r.push_back({base ? "" : s, s});
	}
	return r;
}

struct Writer {
	vector<string> syms; map<string, uint32_t> num; bool big = false; string out;
	void u8(uint32_t v) { out += (char) v; }
	void u16(uint32_t v) { if (big) { u8(v >> 8 & 255); u8(v & 255); } else { u8(v & 255); u8(v >> 8 & 255); } }
	void u32(uint32_t v) { if (big) { u16(v >> 16); u16(v & 65535); } else { u16(v & 65535); u16(v >> 16); } }
	static string write(const Net & n, bool weighted, bool bigEndian = false, const vector<string> & extraSyms = {}) {
		Writer w; w.big = bigEndian;
		std::set<string> flags, singles, multis;
		auto see = [&](const string & s) { if (s.empty()) return; if (isFlag(s)) flags.insert(s); else if (isMulti(s)) multis.insert(s); else singles.insert(s); };
		for (auto & st : n.states) for (auto & a : st.arcs) { see(a.in); see(a.out); }
		for (auto & s : extraSyms) see(s);
		w.syms.push_back("");
		for (auto * c : {&flags, &singles, &multis}) for (auto & s : *c) w.syms.push_back(s);
		for (size_t i = 0; i < w.syms.size(); i++) w.num[w.syms[i]] = (uint32_t) i;
		w.u32(0x00013A6E); w.u32(0x000351FA); w.u8(weighted); for (int i = 0; i < 7; i++) w.u8(0);
		w.u16((uint32_t) w.syms.size());
		for (auto & s : w.syms) { w.out += s; w.out += '\0'; }
		size_t cell = weighted ? 16 : 8;
		while (w.out.size() % cell) w.u8(0);
		vector<uint32_t> pos(n.states.size());
		uint32_t p = 0;
		for (size_t i = 0; i < n.states.size(); i++) {
			pos[i] = p;
			size_t c = n.states[i].arcs.size() + (n.states[i].final ? 1 : 0);
			if (c == 0) c = 1; // dead state: written as an epsilon loop head that cannot be left (see below)
			p += (uint32_t)(c > 255 ? c + 1 : c);
		}
		for (size_t i = 0; i < n.states.size(); i++) {
			struct Cell { uint32_t in, o, t; int wt; };
			vector<Cell> cells;
			for (auto & a : n.states[i].arcs) cells.push_back(Cell{w.num[a.in], w.num[a.out], pos[a.target], a.weight});
			std::stable_sort(cells.begin(), cells.end(), [](const Cell & a, const Cell & b) { return a.in < b.in; });
			size_t f = 0; while (f < cells.size() && cells[f].in == 0) f++;
			if (n.states[i].final) cells.insert(cells.begin() + f, Cell{weighted ? 0xFFFFFFFFu : 0xFFFFu, 0, 0, n.states[i].weight});
			size_t more = cells.size() - 1;
			for (size_t k = 0; k < cells.size(); k++) {
				uint32_t mt = k == 0 ? (more >= 255 ? 255 : (uint32_t) more) : 0;
				auto & c = cells[k];
				if (weighted) { w.u32(c.in); w.u32(c.o); w.u32(c.t); w.u16((uint32_t)(uint16_t)(int16_t) c.wt); w.u8(mt); w.u8(0); }
				else { // 24 bit target in the file's byte order, then the count
					w.u16(c.in); w.u16(c.o);
					if (bigEndian) { w.u8(c.t >> 16 & 255); w.u8(c.t >> 8 & 255); w.u8(c.t & 255); } else { w.u8(c.t & 255); w.u8(c.t >> 8 & 255); w.u8(c.t >> 16 & 255); }
					w.u8(mt);
				}
				if (k == 0 && more >= 255) {
					if (weighted) { w.u32((uint32_t) more); w.u32(0); w.u32(0); w.u32(0); }
					else { w.u32((uint32_t) more); w.u32(0); }
				}
			}
		}
		return w.out;
	}
};

inline Net finnishLexicon(const vector<string> & entries) { Net n; for (auto & e : entries) n.path(finnishPath(e)); return n; }

// root/5/mor-<name>/...
inline string dict(const string & root, const string & name, const string & indexLines, const map<string, string> & files) {
	string d = root + "/5/mor-" + name;
	mc::mkdirs(d);
	mc::writeFile(d + "/index.txt", "Voikko-Dictionary-Format: 5\n" + indexLines);
	for (auto & f : files) mc::writeFile(d + "/" + f.first, f.second);
	return d;
}
}
#endif
