// P09: the dictionary compiler, run in process on every network of the families, in both byte orders, weighted and not.
// The compiled file is decoded independently and compared with the text, and then queried through the library.
#include "netref.hpp"
#include <iostream>
#include <clocale>
using namespace mc; using namespace vf;
extern "C" int voikkovfstc_main(int argc, char ** argv);
static string root;

static string attName(const string & s) { return s.empty() ? "@0@" : s == " " ? "@_SPACE_@" : s; }
static string att(const Net & n, int mode, int order) {
	string t; char b[64];
	auto weight = [&](int w) { // weights are kept as multiples of the resolution of the format
		if (mode == 1) snprintf(b, sizeof b, "%.17g", exp(-(w + 0.5) / 100.0)); else snprintf(b, sizeof b, "%.17g", (w + (w < 0 ? -0.5 : 0.5)) / 1000.0);
		return string(b);
	};
	for (size_t s = 0; s < n.states.size(); s++) {
		auto fin = [&]() { if (n.states[s].final) t += num(s) + (mode ? n.states[s].weight ? "\t" + weight(n.states[s].weight) : "" : "") + "\n"; };
		vector<Arc> arcs = n.states[s].arcs;
		if (order == 1) std::reverse(arcs.begin(), arcs.end());
		if (order == 1) fin();
		for (auto & a : arcs) t += num(s) + "\t" + num(a.target) + "\t" + attName(a.in) + "\t" + attName(a.out) + (mode ? "\t" + weight(a.weight) : "") + "\n";
		if (order == 0) fin();
	}
	return t;
}
static string compile(const string & text, const char * format, int mode, const string & out) {
	std::istringstream in(text); std::ostringstream o, e;
	auto * ib = std::cin.rdbuf(in.rdbuf()); auto * ob = std::cout.rdbuf(o.rdbuf());
	std::cin.clear();
	vector<string> av = {"voikkovfstc", "-o", out, "-f", format};
	if (mode) { av.push_back("-w"); av.push_back(mode == 1 ? "prob" : "log"); }
	vector<char *> argvv; for (auto & s : av) argvv.push_back((char *) s.c_str());
	argvv.push_back(nullptr);
	unlink(out.c_str());
	int rc = voikkovfstc_main((int) av.size(), argvv.data());
	std::cin.rdbuf(ib); std::cout.rdbuf(ob); std::cin.clear();
	return rc ? "compiler exit status " + num(rc) : "";
}
// independent decoder; returns a problem or ""
static string verify(const Net & n, const string & f, bool weighted, bool big, int mode) {
	auto u = [&](size_t p, int k) { uint32_t v = 0; for (int i = 0; i < k; i++) v |= (uint32_t)(unsigned char) f[p + i] << 8 * (big ? k - 1 - i : i); return v; };
	if (f.size() < 18) return "file too short";
	if (u(0, 4) != 0x00013A6E || u(4, 4) != 0x000351FA) return "wrong file type cookie";
	if (f[8] != (weighted ? 1 : 0)) return "wrong weight mark";
	for (int i = 9; i < 16; i++) if (f[i]) return "reserved bytes are not zero";
	size_t p = 18; vector<string> sym;
	for (uint32_t i = 0, c = u(16, 2); i < c; i++) { size_t e = f.find('\0', p); if (e == string::npos) return "symbol table cut off"; sym.push_back(f.substr(p, e - p)); p = e + 1; }
	if (sym.empty() || !sym[0].empty()) return "first symbol is not empty";
	std::set<string> uniq(sym.begin(), sym.end());
	if (uniq.size() != sym.size()) return "repeated symbol";
	size_t cs = weighted ? 16 : 8;
	while (p % cs) { if (p >= f.size() || f[p]) return "padding"; p++; }
	size_t cells = (f.size() - p) / cs;
	if ((f.size() - p) % cs) return "partial cell";
	std::map<uint32_t, size_t> at; std::map<size_t, uint32_t> where; // offset <-> state of the text
	vector<std::pair<uint32_t, size_t>> todo{{0, 0}};
	at[0] = 0; where[0] = 0;
	auto scale = [&](int w) { return weighted ? w : 0; };
	(void) mode;
	while (!todo.empty()) {
		auto cur = todo.back(); todo.pop_back();
		struct C { uint32_t in, out, t; int w; };
		vector<C> cs2;
		auto cell = [&](size_t i) {
			size_t q = p + i * cs;
			if (weighted) return C{u(q, 4), u(q + 4, 4), u(q + 8, 4), (int)(int16_t) u(q + 12, 2)};
			return C{u(q, 2), u(q + 2, 2), u(q + 4, 3), 0};
		};
		size_t i = cur.first;
		if (i >= cells) return "transition beyond the file";
		uint32_t more = (unsigned char) f[p + i * cs + (weighted ? 14 : 7)];
		cs2.push_back(cell(i)); i++;
		if (more == 255) { if (i >= cells) return "overflow cell beyond the file"; more = u(p + i * cs, 4); i++; }
		for (uint32_t k = 0; k < more; k++, i++) { if (i >= cells) return "state beyond the file"; cs2.push_back(cell(i)); }
		const State & s = n.states[cur.second];
		// compare as multisets of (in, out, weight), and match targets consistently
		std::multiset<std::tuple<string, string, int>> want, got; int fin = 0;
		for (auto & a : s.arcs) want.insert({a.in, a.out, scale(a.weight)});
		const uint32_t F = weighted ? 0xFFFFFFFFu : 0xFFFFu;
		for (auto & c : cs2) {
			if (c.in == F) { fin++; if (c.w != scale(s.weight)) return "final weight " + num(c.w) + " instead of " + num(scale(s.weight)) + " in state " + num(cur.second); continue; }
			if (c.in >= sym.size() || c.out >= sym.size()) return "unknown symbol number";
			got.insert({sym[c.in], sym[c.out], c.w});
		}
		if (fin != (s.final ? 1 : 0)) return "final mark of state " + num(cur.second);
		if (want != got) return "transitions of state " + num(cur.second) + " differ";
		for (auto & a : s.arcs) {
			// families use arcs that are unique per state in (in, out, weight) or share the target
			for (auto & c : cs2) if (c.in != F && sym[c.in] == a.in && sym[c.out] == a.out && c.w == scale(a.weight)) {
				if (where.count(a.target)) { if (where[a.target] != c.t) return "target of state " + num(cur.second); }
				else { if (at.count(c.t)) return "two states at one place"; where[a.target] = c.t; at[c.t] = a.target; todo.push_back({c.t, a.target}); }
				break;
			}
		}
	}
	return "";
}
static vector<vector<string>> allWords(const vector<string> & al, size_t lo, size_t hi) {
	vector<vector<string>> r;
	sequences(al.size(), lo, hi, [&](const vector<size_t> & v) { vector<string> w; for (size_t i : v) w.push_back(al[i]); r.push_back(w); });
	return r;
}
static void checkNet(const Net & net, int mode, const vector<vector<string>> & words, const string & what = "") {
	bool weighted = mode > 0;
	string d = (what.empty() ? describe(net, weighted, false) : what) + (mode == 1 ? " prob" : mode == 2 ? " log" : "");
	E().desc(d);
	Net n = net;
	if (!weighted) {
		Net m; m.states[0].arcs.push_back(Arc{"", "[Ln]", 1, 0});
		for (auto & s : net.states) { State t = s; for (auto & a : t.arcs) a.target++; m.states.push_back(t); }
		n = m;
	}
	vector<std::multiset<std::pair<string, string>>> want;
	for (auto & w : words) {
		Bag bag; enumerate(n, 0, w, 0, {}, "", 0, bag, 0);
		std::multiset<std::pair<string, string>> x;
		for (auto & p : bag) for (int i = 0; i < p.second; i++) x.insert({p.first.first, weighted ? probText(p.first.second) : ""});
		want.push_back(x);
	}
	string file = root + "/5/mor-n/mor.vfst";
	for (int order = 0; order < 2; order++) {
		string text = att(n, mode, order);
		for (const char * fmt : {"le", "be", "native"}) {
			if (order == 1 && strcmp(fmt, "native") == 0) continue;
			string problem = compile(text, fmt, mode, file);
			E().step();
			bool big = strcmp(fmt, "be") == 0;
			if (problem.empty()) problem = verify(n, readFile(file), weighted, big, mode);
			if (!problem.empty()) { E().fail(d + " order " + num(order) + " " + fmt, problem); return; }
			if (strcmp(fmt, "native") == 0) continue;
			Handle h(root, weighted ? "fi-x-w" : "fi-x-n");
			for (size_t i = 0; i < words.size(); i++) {
				wstring ws; for (auto & c : words[i]) { wchar_t x; mbstowcs(&x, c.c_str(), 1); ws += x; }
				std::multiset<std::pair<string, string>> got;
				voikko_mor_analysis ** a = voikkoAnalyzeWordUcs4(h, ws.c_str());
				E().step();
				if (a) for (auto ** p = a; *p; p++) {
					const wchar_t * o = voikko_mor_analysis_value_ucs4(*p, "FSTOUTPUT"), * wt = voikko_mor_analysis_value_ucs4(*p, "WEIGHT");
					got.insert({o ? utf8(o) : "(none)", wt ? utf8(wt) : ""});
				}
				voikko_free_mor_analysis(a);
				if (got != want[i]) { E().fail(d + " order " + num(order) + " " + fmt + " word " + show(ws), "expected " + num(want[i].size()) + " readings, got " + num(got.size()) + (got.empty() ? "" : " first " + got.begin()->first + "/" + got.begin()->second)); return; }
				if (order == 0 && !big) { string sig; for (auto & x : got) sig += x.first + "|" + x.second + "|"; E().state(hashStr(sig)); }
			}
		}
	}
}
int main(int argc, char ** argv) {
	setlocale(LC_ALL, "C.UTF-8");
	E().init(argc, argv);
	bool small = false;
	for (int i = 1; i < argc; i++) if (!strcmp(argv[i], "--small")) small = true;
	bool th = E().thorough;
	root = scratch("net");
	const char * rest = "Description: n\nGrammar-Backend: null\nSpeller-Backend: AllOk\n";
	dict(root, "n", string("Language: fi-x-n\n") + rest, {{"mor.vfst", ""}});
	mkdirs(root + "/5/mor-w");
	writeFile(root + "/5/mor-w/index.txt", string("Voikko-Dictionary-Format: 5\nLanguage: fi-x-w\nMorphology-Backend: vfst\n") + rest);
	if (symlink("../mor-n/mor.vfst", (root + "/5/mor-w/mor.vfst").c_str())) {}

	E().startFamily("all-small-networks");
	{
		struct A { int f, t; string in; };
		vector<A> U;
		for (int f = 0; f < 2; f++) for (int t = 0; t < 2; t++) for (string in : {"", "a", "b", "@P.F.x@", "@U.F.y@", "@R.F@", "@D.F.x@"}) U.push_back(A{f, t, in});
		auto words = allWords({"a", "b"}, 0, 2);
		size_t k = small ? 2 : th ? 5 : 4;
		std::function<void(size_t, vector<int>)> rec = [&](size_t from, vector<int> pick) {
			if (E().stop) return;
			if (!pick.empty()) for (int fin = 1; fin < 4; fin++) for (int w = 0; w < 3; w++) {
				Net n; n.add();
				bool letter = false;
				for (size_t i = 0; i < pick.size(); i++) { auto & a = U[pick[i]]; letter |= a.in == "a" || a.in == "b"; n.arc(a.f, a.in, isFlag(a.in) ? a.in : string(1, (char)('p' + i)), a.t, w ? (int) (7 * (i + 1)) : 0); }
				for (int s = 0; s < 2; s++) if (fin >> s & 1) n.fin(s, w ? 100 * (s + 1) : 0);
				bool dead = false; for (auto & s : n.states) if (s.arcs.empty() && !s.final) dead = true;
				if (!letter || epsCycle(n) || dead) continue;
				if (!E().take()) continue;
				checkNet(n, w, words);
			}
			if (pick.size() < k) for (size_t i = from; i < U.size(); i++) { auto p = pick; p.push_back((int) i); rec(i + 1, p); }
		};
		rec(0, {});
	}
	E().startFamily("symbol-sets");
	{
		// every set of up to 4 symbols out of those that are ordered specially; each is looked up
		vector<string> S = {"a", "@", "]", " ", "-", "#", "\xC3\xA4", "\xE2\x80\x93", "\xF0\x90\x90\x80", "z", "0", "~"};
		vector<string> O = {"[Sn]", "[", "x", "[Z]", "@P.F.x@", "[Xp]", "", "y", "@R.G@", "w", "[]", "]"};
		size_t k = small ? 2 : th ? 5 : 4;
		vector<vector<string>> words; for (auto & s : S) { words.push_back({s}); words.push_back({s, "a"}); }
		std::function<void(size_t, vector<int>)> rec = [&](size_t from, vector<int> pick) {
			if (E().stop) return;
			if (!pick.empty()) for (int fl = 0; fl < 2; fl++) for (int w = 0; w < 3; w++) {
				if (!E().take()) continue;
				Net n; n.add();
				bool hyphen = false;
				for (size_t i = 0; i < pick.size(); i++) {
					string o = w ? O[(pick[i] + fl) % O.size()] : (pick[i] % 3 ? S[pick[i]] : string("y"));
					if (o == "[" || o == "[]") o = "q";
					if (isFlag(o)) o = "";
					hyphen |= !w && o == "-";
					if (!w && (o == "-" || o == "]")) o = "";
					n.arc(0, S[pick[i]], o, (int) (i % 2), w ? 10 + pick[i] : 0);
				}
				if (fl) { n.arc(0, "@P.F.x@", "@P.F.x@", 1, w ? 3 : 0); n.arc(1, "@D.F@", "@D.F@", 2, w ? 2 : 0); n.add(); n.fin(2, w ? 9 : 0); }
				n.fin(1, w ? 1 : 0);
				checkNet(n, w, words);
			}
			if (pick.size() < k) for (size_t i = from; i < S.size(); i++) { auto p = pick; p.push_back((int) i); rec(i + 1, p); }
		};
		rec(0, {});
	}
	E().startFamily("fan-out");
	{
		vector<int> sizes;
		for (int i : {1, 2, 3, 5, 8, 13, 60, 127, 128, 250, 251, 252, 253, 254, 255, 256, 257, 258, 259, 300, 511, 512, 513, 700}) sizes.push_back(i);
		if (th) for (int i = 240; i < 530; i++) sizes.push_back(i);
		for (int sz : sizes) for (int var = 0; var < 8; var++) for (int w = 0; w < 3; w++) {
			if (small && (var % 3 || sz > 300)) continue;
			if (!E().take()) continue;
			bool fin = var & 1, eps = var & 2, flag = var & 4;
			Net n; n.add(); n.add(); n.add();
			vector<vector<string>> words{{}};
			for (int i = 0; i < sz; i++) {
				// listed in an order different from the order of the symbols
				int j = (int) ((long) i * 7919 % 1009);
				string c = utf8(wstring(1, (wchar_t)(0x3400 + j)));
				n.arc(0, c, string(1, (char)('p' + i % 5)), 1 + i % 2, w ? i % 300 : 0);
				if (i < 4 || i > sz - 4 || i % 13 == 0 || (i > 250 && i < 260)) { words.push_back({c}); words.push_back({c, "a"}); }
			}
			if (eps) n.arc(0, "", "e", 3, w ? 9 : 0);
			if (flag) { n.arc(0, "@P.F.x@", "@P.F.x@", 3, w ? 8 : 0); n.arc(0, "@R.F.x@", "@R.F.x@", 3, w ? 1 : 0); }
			if (fin) n.fin(0, w ? 40 : 0);
			n.fin(1, w ? 20 : 0); n.fin(2, 0); n.fin(3, 0);
			n.arc(2, "a", "t", 1, w ? 2 : 0);
			checkNet(n, w, words, "state with " + num(sz) + " letters" + (fin ? " final" : "") + (eps ? " empty" : "") + (flag ? " features" : ""));
		}
	}
	E().startFamily("weights");
	{
		// every weight of the resolution of the format up to a bound, and the extremes
		vector<int> ws;
		for (int i = 0; i < (small ? 300 : 3000); i++) ws.push_back(i);
		for (int i = 3000; i < 32767; i += (small ? 4111 : th ? 7 : 61)) ws.push_back(i);
		for (int i : {32765, 32766}) ws.push_back(i);
		for (size_t k = 0; k < ws.size(); k++) for (int mode = 1; mode < 3; mode++) {
			if (!E().take()) continue;
			int w = ws[k];
			Net n; n.add();
			bool onFinal = k & 1;
			n.arc(0, "a", "x", 1, onFinal ? 0 : w); n.fin(1, onFinal ? w : 0);
			checkNet(n, mode, {{"a"}, {"b"}});
			if (mode == 2 && w > 0 && w < 2000) { Net m; m.add(); m.arc(0, "a", "x", 1, onFinal ? 0 : -w); m.fin(1, onFinal ? -w : 0); checkNet(m, mode, {{"a"}}); }
		}
	}
	return E().finish();
}
