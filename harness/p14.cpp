// P14: dictionaries with missing, empty, foreign or cut files are refused without a crash, a leak or an effect on other handles.
#include <cstring>
#include <dlfcn.h>
#include <dirent.h>
#include <new>
#include "api.hpp"
using namespace mc;
#include "held.hpp"
static string root, good;
static VoikkoHandle * other; // a handle opened before everything else
static string otherSays;
static const wchar_t * PROBES[] = {L"kissa", L"kisaa", L"Kissa  koira."};
static string says(VoikkoHandle * h) { string r; for (auto w : PROBES) r += api::all(h, w) + "\n"; return r; }
enum Must { REFUSE, OPEN, ANY };
static void tryOpen(const string & d, const string & lang, Must must) {
	for (int again = 0; again < 2; again++) { // the first round may fill lazily made tables
		const char * err = nullptr;
		Held before = held();
		VoikkoHandle * h = voikkoInit(&err, lang.c_str(), root.c_str());
		E().step();
		if (h) {
			if (err) E().fail(d, "opened with an error message");
			voikkoTerminate(h);
			if (must == REFUSE) { E().fail(d, "accepted"); return; }
		}
		else {
			if (!err || !*err) { E().fail(d, "no error message"); return; }
			if (must == OPEN) { E().fail(d, string("refused: ") + err); return; }
			E().state(hashStr(err));
		}
		Held after = held();
		if (again && (after.b != before.b || after.m != before.m || after.f != before.f)) { E().fail(d, string(h ? "opening and closing" : "the refused opening") + " leaves " + num(after.b - before.b) + " blocks, " + num(after.m - before.m) + " mapped files and " + num(after.f - before.f) + " open files behind"); return; }
	}
}
static string goodSays;
static void after(const string & d) { // the world is as before
	E().step(2);
	if (says(other) != otherSays) E().fail(d, "a handle opened earlier gives other answers after the failure");
	const char * err = nullptr;
	VoikkoHandle * h = voikkoInit(&err, "fi-x-good", good.c_str());
	if (!h) { E().fail(d, string("a good dictionary cannot be opened afterwards: ") + (err ? err : "?")); return; }
	if (says(h) != goodSays) E().fail(d, "a good dictionary opened afterwards gives other answers");
	voikkoTerminate(h);
}
int main(int argc, char ** argv) {
	E().init(argc, argv);
	bool small = false, T = E().thorough;
	for (int i = 1; i < argc; i++) if (!strcmp(argv[i], "--small")) small = true;
	root = scratch("p14"); good = scratch("p14good");
	api::finnish(good, "good");
	Handle oh(good, "fi-x-good"); other = oh; otherSays = says(other);
	{ Handle g(good, "fi-x-good"); goodSays = says(g); }
	// two kinds of dictionary, each written in both byte orders
	struct Kind { string name, lang, index; std::map<string, std::pair<vf::Net, bool>> nets; };
	vector<Kind> kinds(2);
	auto flags = [](vf::Net n) { int s = n.add(), t = n.add(), u = n.add(); n.arc(0, "@P.A.x@", "@P.A.x@", s); n.arc(s, "a", "[Ln]", t); n.arc(t, "@D.A@", "@D.A@", u); n.fin(u); return n; };
	vf::Net acc; { int a = acc.add(), b = acc.add(); acc.arc(0, "a", "a", a, 10); acc.arc(a, "ä", "ä", b, 20); acc.arc(a, "@U.F.v@", "@U.F.v@", b, 1); acc.fin(b, 3); }
	kinds[0] = {"fin", "fi-x-fin", "Language: fi-x-fin\nDescription: d\nGrammar-Backend: finnishVfst\n", {{"mor.vfst", {flags(vf::finnishLexicon({"[Ln][Xp]kissa[X]kissa[Sn][Ny]", "[Ln]äö[Sn][Ny]"})), false}}, {"autocorr.vfst", {api::autocorrect(api::rules()), false}}}};
	kinds[1] = {"pla", "fi-x-pla", "Language: fi-x-pla\nDescription: d\nMorphology-Backend: vfst\nSpeller-Backend: vfst\nSuggestion-Backend: vfst\nGrammar-Backend: null\n", {{"mor.vfst", {acc, true}}, {"spl.vfst", {acc, true}}, {"err.vfst", {acc, true}}}};
	auto lay = [&](const Kind & k, bool big) { rmTree(root + "/5"); std::map<string, string> f; for (auto & n : k.nets) f[n.first] = vf::Writer::write(n.second.first, n.second.second, big); vf::dict(root, k.name, k.index, f); return f; };
	auto symbolEnd = [](const string & s, bool big) { auto u = [&](size_t i) { return (unsigned) (unsigned char) s[i]; }; unsigned n = big ? u(16) << 8 | u(17) : u(17) << 8 | u(16); size_t p = 18; for (unsigned i = 0; i < n; i++) p = s.find('\0', p) + 1; return p; };
	auto path = [&](const Kind & k, const string & f) { return root + "/5/mor-" + k.name + "/" + f; };
	auto put = [&](const string & p, const string & content) { unlink(p.c_str()); writeFile(p, content); };

	E().startFamily("undamaged");
	for (auto & k : kinds) for (int big = 0; big < 2; big++) if (E().take()) { string d = k.name + (big ? " big" : " little"); E().desc(d); lay(k, big); tryOpen(d, k.lang, OPEN); after(d); }
	E().startFamily("cut at every length");
	for (auto & k : kinds) for (int big = 0; big < 2; big++) for (auto & n : k.nets) {
		string whole = vf::Writer::write(n.second.first, n.second.second, big); size_t sym = symbolEnd(whole, big);
		for (size_t len = 0; len < whole.size(); len++) {
			if (small && len > 40 && len < sym - 3 && len % 11) continue;
			if (small && len > sym + 40 && len % 7) continue;
			if (!E().take()) continue;
			string d = k.name + (big ? " big " : " little ") + n.first + " cut to " + num((long long) len) + " of " + num((long long) whole.size()) + (len < sym ? " (inside the symbols)" : "");
			E().desc(d); lay(k, big); put(path(k, n.first), whole.substr(0, len));
			tryOpen(d, k.lang, len < sym ? REFUSE : ANY); after(d);
		}
	}
	E().startFamily("cut, with a symbol table of many pages");
	for (auto & k : kinds) for (int big = 0; big < 2; big++) {
		auto & n = *k.nets.begin();
		vector<string> extra; for (int i = 0; i < 3000; i++) extra.push_back("[T" + num(i) + "]");
		string whole = vf::Writer::write(n.second.first, n.second.second, big, extra); size_t sym = symbolEnd(whole, big);
		vector<size_t> lens; for (size_t p = 4096; p < sym; p += 4096) for (size_t q : {p - 1, p, p + 1}) lens.push_back(q);
		lens.push_back(sym - 1); lens.push_back(whole.size());
		for (size_t len : lens) if (E().take()) { string d = k.name + (big ? " big " : " little ") + n.first + " with many symbols cut to " + num((long long) len); E().desc(d); lay(k, big); put(path(k, n.first), whole.substr(0, len)); tryOpen(d, k.lang, len < sym ? REFUSE : len == whole.size() ? OPEN : ANY); after(d); }
	}
	E().startFamily("missing, foreign or of the wrong kind");
	for (auto & k : kinds) for (int big = 0; big < 2; big++) for (auto & n : k.nets) for (int how = 0; how < 9; how++) {
		if (!E().take()) continue;
		string d = k.name + (big ? " big " : " little ") + n.first + " damage " + num(how);
		E().desc(d); auto files = lay(k, big); string p = path(k, n.first), s = files[n.first];
		Must m = REFUSE;
		switch (how) {
		case 0: unlink(p.c_str()); break;
		case 1: unlink(p.c_str()); mkdirs(p); break;
		case 2: unlink(p.c_str()); if (symlink("nowhere", p.c_str())) {} break;
		case 3: put(p, vf::Writer::write(n.second.first, !n.second.second, big)); break; // weighted for unweighted
		case 4: put(p, string(5000, 'x')); break;
		case 5: put(p, string(5000, '\0')); break;
		case 6: put(p, vf::Writer::write(n.second.first, n.second.second, !big)); m = OPEN; break; // the files may differ in byte order
		case 7: put(p, s + string(n.second.second ? 16 : 8, '\0')); m = ANY; break;
		case 8: { string t = s; std::swap(t[0], t[3]); std::swap(t[1], t[2]); put(p, t); break; } // half of the marks of one order, half of the other
		}
		tryOpen(d, k.lang, m); after(d);
		if (how == 1) rmTree(p);
	}
	E().startFamily("every byte up to the end of the symbols changed");
	for (auto & k : kinds) for (int big = 0; big < 2; big++) for (auto & n : k.nets) {
		string whole = vf::Writer::write(n.second.first, n.second.second, big); size_t sym = symbolEnd(whole, big);
		for (size_t i = 0; i < sym; i++) for (int v : {0x00, 0x01, 0x80, 0xff, (int) '@', (int) '[', -1}) {
			if (small && i >= 18 && i % 5) continue;
			string s = whole; s[i] = v < 0 ? (char) (s[i] ^ 1) : (char) v;
			if (s == whole || !E().take()) continue;
			string d = k.name + (big ? " big " : " little ") + n.first + " byte " + num((long long) i) + " set to " + num((int) (unsigned char) s[i]);
			E().desc(d); lay(k, big); put(path(k, n.first), s);
			tryOpen(d, k.lang, i < 8 || (i == 8 && (s[i] == 1) != n.second.second) ? REFUSE : ANY); if (i < 20 || i % 7 == 0) after(d);
		}
	}
	E().startFamily("backends that do not exist");
	for (auto & k : kinds) for (auto & line : vector<string>{"Morphology-Backend: malaga", "Morphology-Backend: ", "Morphology-Backend: nul", "Speller-Backend: none", "Speller-Backend: null", "Speller-Backend: ", "Suggestion-Backend: none", "Suggestion-Backend: ", "Hyphenator-Backend: null", "Hyphenator-Backend: ", "Grammar-Backend: none", "Grammar-Backend: ", "Grammar-Backend: vislcg3", "Speller-Backend: hfst", "Suggestion-Backend: hfst", "Speller-Backend: AllOk\nSuggestion-Backend: vfst", "Morphology-Backend: hfst"}) {
		if (!E().take()) continue;
		string d = k.name + " with " + line; for (auto & c : d) if (c == '\n') c = ' ';
		E().desc(d);
		lay(k, false); put(path(k, "index.txt"), "Voikko-Dictionary-Format: 5\n" + k.index + line + "\n");
		tryOpen(d, k.lang, REFUSE); after(d);
	}
	E().startFamily("no such language or no dictionaries");
	for (auto l : {"", "xx", "fi-x-none", "-", "x", "-x-", "fi-x-", "fi-Cyrl", "\xff"}) for (int empty = 0; empty < 2; empty++) if (E().take()) {
		string d = string("language '") + l + "'" + (empty ? " without dictionaries" : ""); E().desc(d); rmTree(root + "/5"); if (!empty) lay(kinds[0], false);
		tryOpen(d, l, string(l) == "fi-x-" && !empty ? ANY : REFUSE); after(d);
	}
	if (E().take()) { E().desc("null language"); const char * err = nullptr; if (voikkoInit(&err, nullptr, root.c_str()) || !err) E().fail("null language", "not refused"); }
	// histories of openings: good and bad dictionaries, kept open or closed
	E().startFamily("histories");
	{
		// 0..3 open: good, cut, missing autocorrect, wrong kind; 4: close the oldest
		string cutRoot = scratch("p14cut"), noRoot = scratch("p14no"), kindRoot = scratch("p14kind");
		api::finnish(cutRoot, "good"); api::finnish(noRoot, "good"); api::finnish(kindRoot, "good");
		string m = readFile(cutRoot + "/5/mor-good/mor.vfst"); writeFile(cutRoot + "/5/mor-good/mor.vfst", m.substr(0, 30));
		unlink((noRoot + "/5/mor-good/autocorr.vfst").c_str());
		writeFile(kindRoot + "/5/mor-good/mor.vfst", vf::Writer::write(acc, true));
		sequences(5, 1, small ? 3 : T ? 7 : 5, [&](const vector<size_t> & v) {
			if (!E().take()) return;
			string d = "open/close"; for (auto i : v) d += " " + num((long long) i);
			E().desc(d);
			vector<VoikkoHandle *> open;
			for (auto i : v) {
				E().step();
				if (i == 4) { if (!open.empty()) { voikkoTerminate(open[0]); open.erase(open.begin()); } continue; }
				const string * r[] = {&good, &cutRoot, &noRoot, &kindRoot};
				const char * err = nullptr;
				VoikkoHandle * h = voikkoInit(&err, "fi-x-good", r[i]->c_str());
				if ((h != nullptr) != (i == 0)) E().fail(d, h ? "a damaged dictionary was opened" : "a good dictionary was refused");
				if (h) { if (i == 0) open.push_back(h); else voikkoTerminate(h); }
				for (auto o : open) if (api::spell(o, L"kissa") != "1" || api::spell(o, L"kisaa") != "0") E().fail(d, "an open handle gives other answers");
			}
			for (auto o : open) { if (says(o) != goodSays) E().fail(d, "an open handle gives other answers at the end"); voikkoTerminate(o); }
			if (says(other) != otherSays) E().fail(d, "the first handle gives other answers");
		});
	}
	oh.close();
	return E().finish();
}
