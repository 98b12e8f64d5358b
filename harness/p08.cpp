// P08: lookup in compiled networks, compared with brute-force enumeration of the accepting paths.
#include "common.hpp"
#include "netref.hpp"
#include <sstream>
#include <iomanip>
#include <cmath>
#include <clocale>
using namespace mc; using namespace vf;

static string root, lang;
static const size_t LIMIT = 99;
static void checkNet(const Net & net, bool weighted, bool big, const vector<vector<string>> & words, bool describeIt = true) {
	string d = describeIt ? describe(net, weighted, big) : "";
	if (describeIt) E().desc(d);
	Net n = net;
	if (!weighted) { // every Finnish reading starts with a class
		Net m; m.states[0].arcs.push_back(Arc{"", "[Ln]", 1, 0});
		for (auto & s : net.states) { State t = s; for (auto & a : t.arcs) a.target++; m.states.push_back(t); }
		n = m;
	}
	string dir = root + "/5/mor-n/mor.vfst";
	// the library maps the file: give every network a file of its own
	unlink(dir.c_str());
	writeFile(dir, Writer::write(n, weighted, big, {"z"})); // a dictionary always has some letter
	Handle h(root, weighted ? "fi-x-w" : "fi-x-n");
	for (int pass = 0; pass < 2; pass++) // the second pass repeats every lookup after all the others
	for (auto & w : words) {
		wstring ws; for (auto & c : w) { wchar_t x; mbstowcs(&x, c.c_str(), 1); ws += x; }
		Bag want; std::map<string, string> reg;
		enumerate(n, 0, w, 0, reg, "", 0, want, 0);
		size_t total = 0; for (auto & p : want) total += p.second;
		Bag got; size_t cnt = 0; bool badWeight = false;
		std::map<string, int> textCount;
		voikko_mor_analysis ** a = voikkoAnalyzeWordUcs4(h, ws.c_str());
		E().step();
		std::multiset<std::pair<string, string>> gotW, wantW;
		if (a) for (auto ** p = a; *p; p++) {
			cnt++;
			const wchar_t * o = voikko_mor_analysis_value_ucs4(*p, "FSTOUTPUT");
			const wchar_t * wt = voikko_mor_analysis_value_ucs4(*p, "WEIGHT");
			gotW.insert({o ? utf8(o) : "(none)", wt ? utf8(wt) : ""});
		}
		voikko_free_mor_analysis(a);
		for (auto & p : want) for (int i = 0; i < p.second; i++) wantW.insert({p.first.first, weighted ? probText(p.first.second) : ""});
		bool ok;
		if (total <= LIMIT) ok = gotW == wantW;
		else ok = cnt == LIMIT && std::includes(wantW.begin(), wantW.end(), gotW.begin(), gotW.end());
		(void) badWeight;
		if (!ok) {
			string g, e; int k = 0;
			for (auto & x : gotW) if (k++ < 6) g += x.first + (x.second.empty() ? "" : "/" + x.second) + " ";
			k = 0;
			for (auto & x : wantW) if (k++ < 6) e += x.first + (x.second.empty() ? "" : "/" + x.second) + " ";
			if (d.empty()) d = describe(net, weighted, big);
			E().fail(d + " word " + show(ws) + (pass ? " again" : ""), "expected " + num(wantW.size()) + " readings: " + e + " got " + num(cnt) + ": " + g);
			return;
		}
		if (pass == 0) { string sig; for (auto & x : gotW) sig += x.first + "|"; E().state(hashStr(sig, weighted * 2 + big + 77)); }
	}
}
static vector<vector<string>> allWords(const vector<string> & al, size_t lo, size_t hi) {
	vector<vector<string>> r;
	sequences(al.size(), lo, hi, [&](const vector<size_t> & v) { vector<string> w; for (size_t i : v) w.push_back(al[i]); r.push_back(w); });
	return r;
}

int main(int argc, char ** argv) {
	setlocale(LC_ALL, "C.UTF-8");
	E().init(argc, argv);
	bool small = false;
	for (int i = 1; i < argc; i++) if (!strcmp(argv[i], "--small")) small = true;
	bool th = E().thorough;
	root = scratch("net");
	dict(root, "n", "Language: fi-x-n\nDescription: n\nGrammar-Backend: null\nSpeller-Backend: AllOk\n", {{"mor.vfst", ""}});
	{
		string d = root + "/5/mor-w"; mkdirs(d);
		writeFile(d + "/index.txt", "Voikko-Dictionary-Format: 5\nLanguage: fi-x-w\nDescription: w\nMorphology-Backend: vfst\nGrammar-Backend: null\nSpeller-Backend: AllOk\n");
		if (symlink("../mor-n/mor.vfst", (d + "/mor.vfst").c_str())) {}
	}
	vector<string> F = {"@P.F.x@", "@P.F.y@", "@U.F.x@", "@U.F.y@", "@R.F.x@", "@R.F@", "@D.F.x@", "@D.F@", "@C.F@", "@P.G.x@", "@R.G.x@", "@U.G.y@"};

	E().startFamily("all-small-networks");
	{
		// two states, every set of at most k arcs over a small arc universe, every choice of final states
		struct A { int f, t; string in; };
		vector<A> U;
		for (int f = 0; f < 2; f++) for (int t = 0; t < 2; t++) for (string in : {string(""), string("a"), string("b"), F[0], F[3], F[5], F[6], F[8]}) U.push_back(A{f, t, in});
		auto words = allWords({"a", "b"}, 0, 3);
		size_t k = small ? 2 : th ? 5 : 4;
		std::function<void(size_t, vector<int>)> rec = [&](size_t from, vector<int> pick) {
			if (E().stop) return;
			if (!pick.empty()) for (int fin = 1; fin < 4; fin++) for (int w = 0; w < 2; w++) {
				Net n; n.add();
				for (size_t i = 0; i < pick.size(); i++) { auto & a = U[pick[i]]; n.arc(a.f, a.in, isFlag(a.in) ? a.in : i == 1 && a.in == "b" ? string("") : string(1, (char)('p' + i)), a.t, w ? (int) (7 * (i + 1)) : 0); }
				for (int s = 0; s < 2; s++) if (fin >> s & 1) n.fin(s, w ? 100 * (s + 1) : 0);
				if (epsCycle(n) || hasDead(n)) continue;
				if (!E().take()) continue;
				checkNet(n, w, false, words);
			}
			if (pick.size() < k) for (size_t i = from; i < U.size(); i++) { auto p = pick; p.push_back((int) i); rec(i + 1, p); }
		};
		rec(0, {});
	}
	E().startFamily("flag-layers");
	{
		// three layers of alternative feature operations with a letter before the last two: every pair of alternatives in every layer
		vector<vector<string>> sets;
		size_t nf = small ? 4 : th ? F.size() : 9;
		for (size_t i = 0; i < nf; i++) { sets.push_back({F[i]}); for (size_t j = i + 1; j < nf; j++) sets.push_back({F[i], F[j]}); }
		auto words = allWords({"a", "b"}, 0, 2); words.push_back({"a", "b", "a"});
		sequences(sets.size(), 3, 3, [&](const vector<size_t> & v) {
			for (int w = 0; w < 2; w++) {
				if (!E().take()) continue;
				Net n; for (int i = 0; i < 4; i++) n.add();
				int wt = 1;
				for (auto & f : sets[v[0]]) n.arc(0, f, f, 1, w ? wt++ : 0);
				n.arc(0, "a", "k", 2, w ? 5 : 0);
				n.arc(1, "a", "m", 2, w ? 11 : 0);
				for (auto & f : sets[v[1]]) n.arc(2, f, f, 3, w ? wt++ * 3 : 0);
				n.arc(2, "b", "q", 3, w ? 50 : 0);
				for (auto & f : sets[v[2]]) n.arc(3, f, f, 4, w ? wt++ * 9 : 0);
				n.arc(3, "b", "r", 4, w ? 70 : 0);
				n.fin(4, w ? 400 : 0);
				checkNet(n, w, false, words);
			}
		});
	}
	E().startFamily("fan-out");
	{
		// one state with n transitions: every symbol must be found, with and without a final mark, empty-input and feature transitions
		vector<int> sizes;
		for (int i = 1; i <= (small ? 8 : 40); i++) sizes.push_back(i);
		for (int i : {126, 127, 128, 129, 200, 250, 251, 252, 253, 254, 255, 256, 257, 258, 259, 260, 261, 300, 511, 512, 513, 1000}) sizes.push_back(i);
		if (th) for (int i = 41; i < 600; i++) sizes.push_back(i);
		for (int sz : sizes) for (int var = 0; var < 16; var++) for (int w = 0; w < 2; w++) for (int big = 0; big < 2; big++) {
			if (small && var % 5) continue;
			if (!E().take()) continue;
			bool fin = var & 1, eps = var & 2, flag = var & 4, dup = var & 8;
			E().desc((w ? "weighted" : "unweighted") + string(big ? " big-endian" : "") + " state with " + num(sz) + " letters" + (fin ? " final" : "") + (eps ? " empty" : "") + (flag ? " features" : "") + (dup ? " duplicates" : ""));
			Net n; n.add(); n.add();
			vector<vector<string>> words{{}};
			for (int i = 0; i < sz; i++) {
				string c = utf8(wstring(1, (wchar_t)(0x3400 + i * 2)));
				n.arc(0, c, string(1, (char)('p' + i % 5)), 1 + i % 2, w ? i % 300 : 0);
				if (dup && (i % 7 == 3 || i == sz - 1)) n.arc(0, c, "z", 1, w ? 3 : 0);
				words.push_back({c}); words.push_back({c, "\xE3\x90\x80"}); // and followed by one more
				if (i % 16 == 0 || i > sz - 3) words.push_back({utf8(wstring(1, (wchar_t)(0x3401 + i * 2)))});
			}
			if (eps) n.arc(0, "", "e", 1, w ? 9 : 0);
			if (flag) { n.arc(0, "@P.F.x@", "@P.F.x@", 1, w ? 8 : 0); n.arc(0, "@R.F.x@", "@R.F.x@", 2, 0); n.arc(0, "@U.F.y@", "@U.F.y@", 2, w ? 1 : 0); }
			if (fin) n.fin(0, w ? 40 : 0);
			n.fin(1, w ? 20 : 0); n.fin(2);
			n.arc(2, "\xE3\x90\x80", "t", 1, w ? 2 : 0);
			checkNet(n, w, big, words, false);
		}
	}
	E().startFamily("branch-sets");
	{
		// every non-empty set of letters leaving a state (each letter once or twice), every letter looked up
		size_t m = small ? 4 : th ? 8 : 7;
		size_t combos = 1; for (size_t i = 0; i < m; i++) combos *= 3;
		vector<vector<string>> words;
		for (size_t i = 0; i < m; i++) { words.push_back({string(1, (char)('a' + i))}); words.push_back({string(1, (char)('a' + i)), "b"}); }
		for (size_t c = 1; c < combos; c++) for (int var = 0; var < 6; var++) for (int w = 0; w < 2; w++) {
			if (!E().take()) continue;
			Net n; n.add();
			size_t x = c;
			for (size_t i = 0; i < m; i++, x /= 3) for (size_t k = 0; k < x % 3; k++) n.arc(0, string(1, (char)('a' + i)), k ? "y" : string(1, (char)('p' + i)), 1, w ? (int)(i + 10 * k) : 0);
			if (var & 1) n.fin(0, w ? 5 : 0);
			if (var & 2) n.arc(0, "", "e", 1, w ? 6 : 0);
			if (var & 4) n.arc(0, "@R.F.x@", "@R.F.x@", 1);
			n.arc(1, "b", "b", 1, w ? 1 : 0); n.fin(1);
			checkNet(n, w, var == 5, words);
		}
	}
	E().startFamily("reading-limit-and-long-words");
	{
		// many readings: 2^k paths, around the documented maximum; feature settings on the way
		for (int k = 1; k <= 8; k++) for (int w = 0; w < 2; w++) for (int fl = 0; fl < 2; fl++) {
			if (!E().take()) continue;
			Net n; int s = 0;
			for (int i = 0; i < k; i++) {
				int t = n.add();
				n.arc(s, "a", "p", t, w ? 1 : 0); n.arc(s, "a", "q", t, w ? 2 : 0);
				if (fl && i == 0) { n.arc(s, "@P.F.x@", "@P.F.x@", n.add()); int u = (int) n.states.size() - 1; n.arc(u, "a", "r", t, w ? 3 : 0); }
				s = t;
			}
			n.fin(s);
			int z = n.add(), z2 = n.add();
			n.arc(0, "b", "b", z); n.arc(z, "@D.F@", "@D.F@", z2); n.fin(z2);
			vector<vector<string>> words;
			for (int i = 1; i <= k; i++) words.push_back(vector<string>(i, "a"));
			words.push_back({"b"}); words.push_back(vector<string>(k, "a")); words.push_back({"b"});
			checkNet(n, w, false, words);
		}
		for (int len : {1, 2, 50, 200, 253, 254, 255, 256, 257, 300}) for (int w = 0; w < 2; w++) {
			if (!E().take()) continue;
			E().desc("word of length " + num(len) + (w ? " weighted" : ""));
			Net n; n.add(); n.arc(0, "a", "a", 0, 0); n.arc(0, "b", "b", 1, w ? 4 : 0); n.fin(1); n.fin(0);
			string file = Writer::write(n, w);
			Net m = n;
			if (!w) { m = Net(); m.states[0].arcs.push_back(Arc{"", "[Ln]", 1, 0}); for (auto & s : n.states) { State t = s; for (auto & a : t.arcs) a.target++; m.states.push_back(t); } }
			unlink((root + "/5/mor-n/mor.vfst").c_str()); writeFile(root + "/5/mor-n/mor.vfst", Writer::write(m, w));
			Handle h(root, w ? "fi-x-w" : "fi-x-n");
			for (wchar_t last : {L'a', L'b', L'c'}) {
				wstring s(len - 1, L'a'); s += last;
				size_t cnt = 0; bool same = true;
				voikko_mor_analysis ** a = voikkoAnalyzeWordUcs4(h, s.c_str());
				if (a) for (auto ** p = a; *p; p++) { cnt++; const wchar_t * o = voikko_mor_analysis_value_ucs4(*p, "FSTOUTPUT"); same = o && wstring(o) == (w ? L"" : L"[Ln]") + s; }
				voikko_free_mor_analysis(a);
				size_t want = (len <= 255 && last != L'c') ? 1 : 0;
				E().step();
				if (cnt != want || !same) E().fail("word of length " + num(len) + " ending " + string(1, (char) last) + (w ? " weighted" : ""), "expected " + num(want) + " readings, got " + num(cnt));
			}
		}
	}
	E().startFamily("readings-without-markup");
	{
		for (const char * o : {"", "x", "xy"}) for (int fl = 0; fl < 2; fl++) {
			if (!E().take()) continue;
			E().desc(string("reading with output ") + o);
			Net m; m.add(); m.add(); m.arc(0, "a", string(o).substr(0, 1), 1); m.arc(1, "b", string(o).substr(string(o).empty() ? 0 : 1), 2); m.fin(2); m.fin(1);
			if (fl) m.arc(0, "@P.F.x@", "@P.F.x@", 1);
			unlink((root + "/5/mor-n/mor.vfst").c_str()); writeFile(root + "/5/mor-n/mor.vfst", Writer::write(m, false));
			Handle h(root, "fi-x-n");
			for (const wchar_t * w : {L"a", L"ab", L"b", L"", L"aa"}) {
				vector<string> vw; for (const wchar_t * p = w; *p; p++) vw.push_back(string(1, (char) *p));
				Bag want; enumerate(m, 0, vw, 0, {}, "", 0, want, 0);
				size_t cnt = 0; bool same = true;
				voikko_mor_analysis ** a = voikkoAnalyzeWordUcs4(h, w);
				E().step();
				if (a) for (auto ** p = a; *p; p++) { cnt++; const wchar_t * x = voikko_mor_analysis_value_ucs4(*p, "FSTOUTPUT"); if (!x || !want.count({utf8(x), 0})) same = false; }
				voikko_free_mor_analysis(a);
				size_t total = 0; for (auto & p : want) total += p.second;
				if (cnt != total || !same) E().fail(string("reading with output ") + o + " word " + show(w), "expected " + num(total) + " readings, got " + num(cnt));
			}
		}
	}
	E().startFamily("symbols");
	{
		// single symbols that need care as the first, only or last symbol of the table, and empty output
		vector<string> S = {"@", "]", "-", "#", "!", "~", "\xC3\xA4", "\xE2\x80\x99", "\xF0\x90\x90\x80", "a", "0"};
		for (size_t i = 0; i < S.size(); i++) for (size_t j = 0; j < S.size(); j++) for (int o = 0; o < 3; o++) for (int w = 0; w < 2; w++) {
			if (!E().take()) continue;
			Net n; n.add();
			string out = o == 0 ? "" : o == 1 ? "x" : S[i];
			n.arc(0, S[i], out, 1, w ? 1 : 0); if (i != j) n.arc(0, S[j], "y", 1, w ? 2 : 0); n.fin(1);
			if (S[i] == "-" || S[j] == "-") { if (!w) continue; }
			vector<vector<string>> words; for (auto & s : S) { words.push_back({s}); }
			checkNet(n, w, false, words);
		}
	}
	return E().finish();
}
