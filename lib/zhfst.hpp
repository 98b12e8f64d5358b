// Writes .zhfst archives: a word list and an error model in the optimized lookup format of HFST.
#ifndef ZHFST_HPP
#define ZHFST_HPP
#include "vfst.hpp"
#include <cstring>
namespace zh {
using std::string; using std::vector; using std::map;
inline void put(string & s, uint32_t v, int n) { for (int i = 0; i < n; i++) s += (char) (v >> 8 * i & 255); }
inline uint32_t bits(float f) { uint32_t u; memcpy(&u, &f, 4); return u; }
// all states lie in the index table, each with a slot for every symbol
inline string optimized(const vf::Net & n, float scale = 1, const vector<string> & more = {}) {
	vector<string> syms = {"@_EPSILON_SYMBOL_@"}; map<string, uint32_t> number = {{"", 0}};
	auto add = [&](const string & s) { if (number.insert({s, (uint32_t) syms.size()}).second) syms.push_back(s); };
	for (auto & s : n.states) for (auto & a : s.arcs) { add(a.in); add(a.out); }
	for (auto & s : more) add(s);
	const uint32_t N = (uint32_t) syms.size(), NONE = 0xFFFFFFFFu, TABLE = 0x80000000u, width = N + 1;
	string index, trans; uint32_t nt = 0, arcs = 0;
	auto cell = [&](uint32_t in, uint32_t out, uint32_t target, float w) { put(trans, in, 2); put(trans, out, 2); put(trans, target, 4); put(trans, bits(w), 4); nt++; };
	cell(0xFFFF, 0xFFFF, NONE, 0);
	for (size_t i = 0; i < n.states.size(); i++) {
		auto & s = n.states[i];
		put(index, 0xFFFF, 2); put(index, s.final ? bits(s.weight * scale) : NONE, 4);
		for (uint32_t c = 0; c < N; c++) {
			bool any = false; uint32_t at = nt;
			for (auto & a : s.arcs) if (number[a.in] == c) { any = true; arcs++; cell(c, number[a.out], (uint32_t) (a.target * width), a.weight * scale); }
			put(index, any ? c : 0xFFFF, 2); put(index, any ? TABLE + at : NONE, 4);
			if (any) cell(0xFFFF, 0xFFFF, NONE, 0);
		}
	}
	for (uint32_t i = 0; i < width; i++) { put(index, 0xFFFF, 2); put(index, NONE, 4); }
	for (int i = 0; i < 4; i++) cell(0xFFFF, 0xFFFF, NONE, 0);
	string about("version\0" "3.3\0" "type\0" "HFST_OLW\0", 26), h("HFST\0", 5);
	put(h, (uint32_t) about.size(), 2); h += '\0'; h += about;
	put(h, N, 2); put(h, N, 2); put(h, (uint32_t) (n.states.size() + 1) * width, 4); put(h, nt, 4); put(h, (uint32_t) n.states.size(), 4); put(h, arcs, 4);
	for (int f : {1, 0, 0, 0, 1, 1, 1, 0, 0}) put(h, f, 4);
	for (auto & s : syms) { h += s; h += '\0'; }
	return h + index + trans;
}
inline uint32_t crc(const string & s) { uint32_t c = ~0u; for (unsigned char b : s) { c ^= b; for (int k = 0; k < 8; k++) c = c & 1 ? c >> 1 ^ 0xEDB88320u : c >> 1; } return ~c; }
inline string zip(const vector<std::pair<string, string>> & files) {
	string out, dir;
	for (auto & f : files) {
		uint32_t at = (uint32_t) out.size(), c = crc(f.second), n = (uint32_t) f.second.size();
		auto common = [&](string & o) { put(o, 20, 2); put(o, 0, 2); put(o, 0, 2); put(o, 0, 2); put(o, 0x21, 2); put(o, c, 4); put(o, n, 4); put(o, n, 4); put(o, (uint32_t) f.first.size(), 2); put(o, 0, 2); };
		put(out, 0x04034b50, 4); common(out); out += f.first; out += f.second;
		put(dir, 0x02014b50, 4); put(dir, 20, 2); common(dir); put(dir, 0, 2); put(dir, 0, 2); put(dir, 0, 2); put(dir, 0, 4); put(dir, at, 4); dir += f.first;
	}
	uint32_t at = (uint32_t) out.size();
	out += dir; put(out, 0x06054b50, 4); put(out, 0, 2); put(out, 0, 2); put(out, (uint32_t) files.size(), 2); put(out, (uint32_t) files.size(), 2); put(out, (uint32_t) dir.size(), 4); put(out, at, 4); put(out, 0, 2);
	return out;
}
inline string meta(const string & locale, const string & title) {
	return "<?xml version=\"1.0\" encoding=\"UTF-8\"?>\n<hfstspeller dtdversion=\"1.0\" hfstversion=\"3\">\n<info>\n<locale>" + locale + "</locale>\n<title>" + title + "</title>\n<description>d</description>\n<version vcsrev=\"1\">0.1</version>\n<date>2012-01-01</date>\n<producer>p</producer>\n<contact email=\"a@b.fi\" website=\"http://b.fi\"/>\n</info>\n"
		"<acceptor type=\"general\" id=\"acceptor.default.hfst\">\n<title>t</title>\n<description>d</description>\n</acceptor>\n<errmodel id=\"errmodel.default.hfst\">\n<title>t</title>\n<description>d</description>\n<type type=\"default\"/>\n<model>errmodel.default.hfst</model>\n</errmodel>\n</hfstspeller>\n";
}
inline string archive(const string & locale, const string & title, const vf::Net & acc, const vf::Net & err, float scale = 1) {
	return zip({{"index.xml", meta(locale, title)}, {"acceptor.default.hfst", optimized(acc, scale)}, {"errmodel.default.hfst", optimized(err, scale)}});
}
}
#endif
