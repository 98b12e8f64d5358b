// The networks of Finnish dictionaries: an independent reader of the binary format and an exhaustive walker over all words of a network that
// are built from given base forms, within bounds on the number of parts, derivations, possessives and clitics.
#pragma once
#include "mc.hpp"
#include <fstream>
#include <cstring>
#include <algorithm>
#include <set>
namespace dn {
using std::string; using std::vector;
struct T { uint16_t in, out; uint32_t target : 24; uint32_t more : 8; };
struct Net {
	struct Op { char op = 0; int f = 0, v = 0; };
	vector<char> b; vector<string> sym; vector<Op> ops; vector<char> kind; const T * t = nullptr; size_t cells = 0; int feats = 0;
	bool load(const string & p) {
		std::ifstream f(p, std::ios::binary); b.assign(std::istreambuf_iterator<char>(f), {});
		if (b.size() < 18) return false;
		const char * q = b.data() + 16; uint16_t n; memcpy(&n, q, 2); q += 2;
		std::map<string, int> F, V{{"", 0}, {"@", 1}};
		for (int i = 0; i < n; i++) {
			string s(q); q += s.size() + 1; Op o;
			if (i && s[0] == '@' && s.size() > 4) {
				o.op = s[1]; string fv = s.substr(3, s.size() - 4); size_t d = fv.find('.');
				string fe = fv.substr(0, d), va = d == string::npos ? "@" : fv.substr(d + 1);
				o.f = F.emplace(fe, (int) F.size()).first->second; o.v = V.emplace(va, (int) V.size()).first->second;
			}
			// 0 nothing, f flag, a letter, or the kind of tag
			kind.push_back(!i ? 0 : o.op ? 'f' : s[0] == '[' && s.size() > 2 ? s[1] : 'a');
			if (s == "[X]") kind.back() = 'x';
			if (s == "[Bm]") kind.back() = 'm';
			sym.push_back(s); ops.push_back(o);
		}
		feats = (int) F.size(); size_t off = (q - b.data() + 7) / 8 * 8; t = (const T *)(b.data() + off); cells = (b.size() - off) / 8; return true;
	}
};
struct Bounds { int parts = 1, der = 0, poss = 0, clit = 0; bool bare = false; size_t letters = 200; };
struct Walker {
	const Net & n; const vector<string> & allowed; Bounds b; std::function<void(const string &, const string &)> found; // surface, tags
	vector<int> flags; string in, out, key, first; uint64_t nodes = 0; bool failed = false; // first: if not empty, what the first part must be
	enum { START, GIVEN, SOURCE, BASE, BODY, BODYX, PREFIX };
	Walker(const Net & n, const vector<string> & sortedAllowed, Bounds b) : n(n), allowed(sortedAllowed), b(b) {}
	void run() { flags.assign(n.feats, 0); in = out = key = ""; go(0, START, 1, 0, 0, 0, 0); }
	bool possible(const string & k, int parts) const { if (parts == 1 && !first.empty()) return first.compare(0, k.size(), k) == 0; auto i = std::lower_bound(allowed.begin(), allowed.end(), k); return i != allowed.end() && i->compare(0, k.size(), k) == 0; }
	bool exact(const string & k, int parts) const { return parts == 1 && !first.empty() ? k == first : std::binary_search(allowed.begin(), allowed.end(), k); }
	void go(uint32_t s, int st, int parts, int der, int poss, int clit, int depth) {
		nodes++; if (depth > 400 || s >= n.cells) { failed = true; return; }
		const T * h = n.t + s; uint32_t max = h->more; bool ovf = max == 255; if (ovf) { uint32_t x; memcpy(&x, h + 1, 4); max = x + 1; }
		for (uint32_t i = 0; i <= max; i++) {
			if (i == 1 && ovf) continue;
			const T & t = h[i];
			if (t.in == 0xFFFF) { if (st == BODY) found(in, out); continue; }
			char k = n.kind[t.out]; const string & o = n.sym[t.out];
			int st2 = st, p2 = parts, d2 = der, o2 = poss, c2 = clit; size_t lk = key.size(), lo = out.size(); string oldKey; bool restore = false;
			if (k && k != 'f') {
				switch (st) {
				case START:
					if (k == 'a' && key.compare(0, 4, "[Lp]") == 0) { key += '\t'; key += o; if (!possible(key, parts)) { key.resize(lk); continue; } out += o; st2 = PREFIX; }
					else if (k == 'a') { if (!b.bare || key.empty()) { if (!(k == 'a' && o == "-" && key.empty())) continue; out += o; break; } st2 = BODY; }
					else if (o == "[Xp]") { key += '\t'; if (!possible(key, parts)) { key.resize(lk); continue; } st2 = BASE; out += o; }
					else if (o == "[Xs]") { out += o; st2 = SOURCE; }
					else if (o == "[Xr]") { key += o; out += o; st2 = GIVEN; }
					else if (k == 'B') { if (parts == 1 && !first.empty()) continue; if (!(key.empty() && parts > 1) && ++p2 > b.parts) continue; restore = true; oldKey = key; key.clear(); out += o; }
					else { key += o; out += o; }
					break;
				case GIVEN: key += o; out += o; if (k == 'x') st2 = START; break;
				case SOURCE: out += o; if (k == 'x') st2 = START; break;
				case BASE: if (k == 'x') { if (!exact(key, parts)) continue; st2 = BODY; } else { key += o; if (!possible(key, parts)) { key.resize(lk); continue; } } out += o; break;
				case PREFIX: // has no base form in the output
					if (k == 'a' && o == "-" && exact(key, parts)) ;
					else if (k == 'a') { key += o; if (!possible(key, parts)) { key.resize(lk); continue; } }
					else if (k == 'B') { if (!exact(key, parts) || ++p2 > b.parts) continue; st2 = START; restore = true; oldKey = key; key.clear(); }
					out += o; break;
				case BODYX: out += o; if (k == 'x') st2 = BODY; break;
				case BODY:
					if (k == 'a') break;
					if (k == 'B') { if (++p2 > b.parts) continue; st2 = START; restore = true; oldKey = key; key.clear(); }
					else if (k == 'F' && ++c2 > b.clit) continue;
					else if (k == 'O' && ++o2 > b.poss) continue;
					else if ((k == 'D' || k == 'L') && ++d2 > b.der) continue;
					else if (k == 'X') st2 = BODYX;
					out += o;
				}
			}
			int f = -1, old = 0; bool ok = true;
			if (n.ops[t.in].op) {
				auto & p = n.ops[t.in]; int c = flags[p.f], v = c;
				switch (p.op) { case 'P': v = p.v; break; case 'C': v = 0; break; case 'U': if (c) ok = c == p.v; else v = p.v; break; case 'R': ok = p.v == 1 ? c != 0 : c == p.v; break; case 'D': ok = !(p.v == 1 ? c != 0 : c == p.v); break; default: ok = false; }
				if (ok) { f = p.f; old = c; flags[f] = v; }
			}
			if (ok) {
				size_t li = in.size(); if (t.in && !n.ops[t.in].op) in += n.sym[t.in];
				if (in.size() <= b.letters) go(t.target, st2, p2, d2, o2, c2, depth + 1);
				in.resize(li); if (f >= 0) flags[f] = old;
			}
			if (restore) key = oldKey; else key.resize(lk);
			out.resize(lo);
		}
	}
};
}
