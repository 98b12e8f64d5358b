// P23: weighted acceptors and error models against brute-force composition.
#include "common.hpp"
#include "netref.hpp"
#include "ref_spell.hpp"
#include "zhfst.hpp"
#include <clocale>
using namespace mc; using namespace vf;
static string root, hroot; static bool HF; // HF: an archive for the HFST library instead of vfst files
static float hfScale = 1;
static const string & where() { return HF ? hroot : root; } static const char * tag() { return HF ? "yy-x-n" : "xx-x-n"; }
static vector<string> chars(const wstring & w) { return splitUtf8(utf8(w)); }
static std::map<string, int> words(const Net & acc, const Net & err, const wstring & w) { // every correction with its best combined weight
	std::map<string, int> r; Bag out; enumerate(err, 0, chars(w), 0, {}, "", 0, out, 0);
	std::map<string, int> best; for (auto & p : out) { auto i = best.insert({p.first.first, p.first.second}).first; i->second = std::min(i->second, p.first.second); }
	for (auto & p : best) { Bag a; enumerate(acc, 0, splitUtf8(p.first), 0, {}, "", 0, a, 0); if (!a.empty()) r[p.first] = p.second + a.begin()->first.second; }
	return r;
}
static wstring allUpper(wstring w) { for (auto & c : w) c = ref::upper(c); return w; }
static bool single(const Net & acc, const wstring & w) { Bag a; enumerate(acc, 0, chars(w), 0, {}, "", 0, a, 0); int n = 0; for (auto & p : a) n += p.second; return n <= 1; }
static bool accepts(const Net & acc, const wstring & w) { Bag a; enumerate(acc, 0, chars(w), 0, {}, "", 0, a, 0); return !a.empty(); }
static void install(const Net & acc, const Net & err, bool big = false) {
	if (HF) { string f = hroot + "/3/n.zhfst"; unlink(f.c_str()); writeFile(f, zh::archive("yy-x-n", "n", acc, err, hfScale)); return; }
	for (auto & p : vector<std::pair<string, const Net *>>{{"spl", &acc}, {"err", &err}}) { string f = root + "/5/mor-n/" + p.first + ".vfst"; unlink(f.c_str()); writeFile(f, Writer::write(*p.second, true, big, {"z"})); }
}
// the library's answer has to be a best-first selection
static bool checkSuggestions(VoikkoHandle * h, const Net & acc, const Net & err, const wstring & w, const string & d) {
	auto want = words(acc, err, w); want.erase("");
	std::map<wstring, int> ww; for (auto & p : want) ww[fi::widen(p.first)] = p.second;
	vector<int> weights; for (auto & p : ww) weights.push_back(p.second);
	std::sort(weights.begin(), weights.end());
	wchar_t ** a = voikkoSuggestUcs4(h, w.c_str()); auto got = toVec(a); bool null = !a; voikko_free_suggest_ucs4(a); E().step();
	string g = null ? "nothing" : "", e; for (auto & s : got) g += utf8(s) + (ww.count(s) ? "/" + num(ww[s]) : "") + " ";
	{ vector<std::pair<int, string>> v; for (auto & p : ww) v.push_back({p.second, utf8(p.first)}); std::sort(v.begin(), v.end()); for (size_t i = 0; i < v.size() && i < 8; i++) e += v[i].second + "/" + num(v[i].first) + " "; }
	string m;
	size_t n = w.size() < 2 ? 0 : std::min<size_t>(5, ww.size());
	if (got.size() != n) m = num((long long) got.size()) + " suggestions instead of " + num((long long) n);
	else if (null != (n == 0)) m = "an empty list";
	else for (size_t i = 0; i < n && m.empty(); i++) {
		if (!ww.count(got[i])) m = show(got[i]) + " is not reachable";
		else if (ww[got[i]] != weights[i]) m = show(got[i]) + " is not the next best";
		for (size_t j = 0; j < i; j++) if (got[i] == got[j]) m = show(got[i]) + " twice";
	}
	if (!m.empty()) { E().fail(d + " word " + show(w), m + ": got " + g + "; expected " + (e.empty() ? "nothing" : e)); return false; }
	E().state(hashStr(g, w.size() + 7));
	return true;
}
static bool checkAll(const Net & acc, const Net & err, const vector<wstring> & asked, const string & d, bool big = false) {
	install(acc, err, big);
	Handle h(where(), tag());
	for (int pass = 0; pass < 2; pass++) for (auto & w : asked) {
		if (!checkSuggestions(h, acc, err, w, d + (pass ? " again" : ""))) return false;
		if (pass == 0 && w == ref::lower(w)) { E().step(); int s = voikkoSpellUcs4(h, w.c_str()); bool ok = w.empty() || accepts(acc, w); if (s != (ok ? 1 : 0)) { E().fail(d + " word " + show(w), "spelling gives " + num(s)); return false; } }
	}
	return true;
}
static Net acceptor(const vector<std::pair<string, int>> & list, bool spread = false) { // spread: half of the weight on the first arc of a path of its own
	// no state is without a way on: the network always has some word
	Net n; n.path({{"z", "z"}});
	for (auto & p : list) {
		if (!spread) { vector<std::pair<string, string>> q; for (auto & c : splitUtf8(p.first)) q.push_back({c, c}); n.path(q, p.second); continue; }
		int s = 0, part = p.second / 2; auto cs = splitUtf8(p.first);
		for (size_t i = 0; i < cs.size(); i++) { int t = n.add(); n.arc(s, cs[i], cs[i], t, i == 0 ? part : 0); s = t; }
		n.fin(s, cs.empty() ? p.second : p.second - part);
	}
	return n;
}
int main(int argc, char ** argv) {
	E().init(argc, argv); setlocale(LC_ALL, "C.UTF-8");
	bool small = false; for (int i = 1; i < argc; i++) if (string(argv[i]) == "--small") small = true;
	const bool th = E().thorough;
	root = scratch("root"); hroot = scratch("hroot"); mkdirs(hroot + "/3"); string home = scratch("home"); setenv("HOME", home.c_str(), 1);
	dict(root, "n", "Language: xx-x-n\nDescription: n\nMorphology-Backend: null\nSpeller-Backend: vfst\nSuggestion-Backend: vfst\nHyphenator-Backend: AnalyzerToFinnishHyphenatorAdapter(currentAnalyzer)\nGrammar-Backend: null\n", {});
	auto wordsOver = [](const vector<wstring> & abc, size_t a, size_t b) { vector<wstring> r; strings(abc, a, b, [&](const wstring & w) { r.push_back(w); }); return r; };
	const vector<wstring> ab = {L"a", L"b"};
	// ---- error models: copying, and at most one edit from every subset of edits
	struct Edit { const char * in, * out; int w; };
	const vector<Edit> edits = {{"a", "b", 3}, {"b", "a", 5}, {"a", "", 7}, {"b", "", 2}, {"", "a", 4}, {"", "b", 9}, {"a", "a", 1}, {"b", "c", 0}};
	auto once = [&](size_t mask, int shape) { // shape 0: one edit; 1: any number of edits that read something, one insertion; 2: one or two edits; 3: exactly one edit
		Net n; int s = 0, t = n.add(); int u = shape == 2 ? n.add() : t;
		std::set<int> st = {s, t, u};
		for (int x : st) { n.arc(x, "a", "a", x); n.arc(x, "b", "b", x); if (x != s || shape != 3) n.fin(x, x == t ? 1 : 0); }
		for (size_t i = 0; i < edits.size(); i++) if (mask >> i & 1) {
			auto & e = edits[i]; bool reads = *e.in;
			if (shape == 1) { if (reads) { if (string(e.in) != e.out) { n.arc(s, e.in, e.out, s, e.w); n.arc(t, e.in, e.out, t, e.w); } else continue; } else n.arc(s, e.in, e.out, t, e.w); }
			else { n.arc(s, e.in, e.out, t, e.w); if (shape == 2) n.arc(t, e.in, e.out, u, e.w * 2); }
		}
		return n;
	};
	const vector<wstring> lex = wordsOver(ab, 1, 2); // a b aa ab ba bb
	const vector<wstring> asked = wordsOver(ab, 0, small ? 2 : 3);
	for (int hf = 0; hf < 2; hf++) {
	HF = hf;
	E().startFamily(string(hf ? "HFST: " : "") + "every set of edits in every shape of error model, every set of words of at most two letters");
	for (int shape = 0; shape < 4; shape++) for (size_t mask = 0; mask < (small ? 64u : 256u); mask += small ? 5 : th ? 1 : shape == 0 ? 1 : 3) for (size_t lx = 0; lx < 64; lx += small ? 9 : th ? 1 : 3) {
		if (!E().take()) continue;
		vector<std::pair<string, int>> l; for (size_t i = 0; i < lex.size(); i++) if (lx >> i & 1) l.push_back({utf8(lex[i]), (int) ((i * 5 + lx) % 7)});
		if (lx % 4 == 2) l.push_back({"c", 2}), l.push_back({"ac", 1});
		Net acc = acceptor(l, lx % 3 == 1), err = once(mask, shape);
		string d = "model " + describe(err, true, false) + " words"; for (auto & p : l) d += " " + p.first + "/" + num(p.second);
		if (hf && !th && (mask + lx) % 3) continue;
		hfScale = mask % 2 ? 1 : 0.25f;
		E().desc(d); checkAll(acc, err, asked, d, (mask ^ lx) & 1);
	}
	}
	hfScale = 1;
	// ---- longer words: pruning of the search has to be safe
	{
		const auto l3 = wordsOver(ab, 3, 4); // 24 words
		const auto ask = wordsOver(ab, 3, th ? 6 : small ? 3 : 5);
		for (int hf = 0; hf < 2; hf++) {
		HF = hf;
		E().startFamily(string(hf ? "HFST: " : "") + "every pair of words of three or four letters in the acceptor, every shape with all edits");
		for (int shape = 0; shape < 4; shape++) for (size_t i = 0; i < l3.size(); i++) for (size_t j = 0; j <= i; j++) {
			if (small && (i + j) % 5) continue;
			if (!E().take()) continue;
			vector<std::pair<string, int>> l = {{utf8(l3[i]), 6}}; if (j < i) l.push_back({utf8(l3[j]), (int) (i + j) % 12});
			Net acc = acceptor(l, (i + j) % 2), err = once(255, shape);
			string d = "all edits, shape " + num(shape) + ", words " + utf8(l3[i]) + "/6 " + (j < i ? utf8(l3[j]) + "/" + num((int) (i + j) % 12) : ""); E().desc(d);
			checkAll(acc, err, ask, d, (i ^ j) & 1);
		}
		}
		HF = false;
	}
	// ---- flag diacritics in error model and acceptor
	{
		const vector<string> flags = {"@P.X.1@", "@P.X.2@", "@R.X.1@", "@D.X.1@", "@U.X.1@", "@C.X@", "@R.X@", "@D.X@", "@U.Y.1@", "@R.Y.1@"};
		const auto ask = wordsOver(ab, 2, small ? 2 : 4);
		E().startFamily("every two or three flags before, between and after the letters of the error model");
		// model: [f1] then loop of letters with a substitution guarded by f2, end guarded by f3; the tail after the guarded substitution is long, so pruning happens below flags
		auto model = [&](const string & f1, const string & f2, const string & f3) {
			Net n; int s = n.add(), t = n.add(), u = n.add(), v = n.add(); // 0 -f1-> s ; s letters loop; s -f2-> t -a:b-> u ; u letters loop ; s,u -f3-> v final; also 0 -> s without flag
			n.arc(0, f1, f1, s); n.arc(0, "", "", s, 2);
			n.arc(s, "a", "a", s); n.arc(s, "b", "b", s);
			n.arc(s, f2, f2, t); n.arc(t, "a", "b", u, 3); n.arc(t, "b", "a", u, 4);
			n.arc(u, "a", "a", u); n.arc(u, "b", "b", u); n.arc(u, "b", "c", u, 1);
			n.arc(u, f3, f3, v); n.arc(s, f3, f3, v, 6); n.fin(v, 1);
			return n;
		};
		const vector<vector<std::pair<string, int>>> lexes = {{{"ab", 1}, {"ba", 2}, {"aab", 3}, {"bba", 1}}, {{"bb", 0}, {"bab", 4}, {"abab", 2}, {"bbbb", 1}}, {{"aa", 5}, {"bca", 1}, {"bc", 2}, {"aaa", 1}, {"aaba", 3}}};
		for (auto & f1 : flags) for (auto & f2 : flags) for (auto & f3 : flags) for (size_t k = 0; k < lexes.size(); k++) {
			if (small && (f1[1] + f2[1] + f3[1] + k) % 7) continue;
			if (!E().take()) continue;
			Net acc = acceptor(lexes[k], k == 1), err = model(f1, f2, f3); string d = "flags " + f1 + " " + f2 + " " + f3 + ", lexicon " + num((long long) k); E().desc(d);
			checkAll(acc, err, ask, d, k == 2);
		}
		E().startFamily("every two or three flags along the words of the acceptor");
		for (auto & f1 : flags) for (auto & f2 : flags) for (auto & f3 : flags) for (int k = 0; k < 2; k++) {
			if (small && (f1[1] + f2[1] + f3[1] + k) % 7) continue;
			if (!E().take()) continue;
			Net acc; int s = acc.add(), t = acc.add(), u = acc.add(), v = acc.add();
			acc.arc(0, f1, f1, s, 1); if (k) acc.arc(0, "", "", s, 2);
			acc.arc(s, "a", "a", t, 1); acc.arc(s, "b", "b", t, 3); acc.arc(t, f2, f2, u); acc.arc(u, "b", "b", t, 2); acc.arc(u, "a", "a", u, 1); acc.arc(u, f3, f3, v); acc.fin(v, 4);
			Net err = once(15, 2); string d = "acceptor " + describe(acc, true, false); E().desc(d);
			// of several paths for one word any may be used
			bool one = true; for (auto & w : wordsOver(ab, 0, 5)) if (!single(acc, w)) one = false;
			if (!one) continue;
			checkAll(acc, err, ask, d, k);
		}
	}
	// ---- many candidates
	{
		for (int hf = 0; hf < 2; hf++) {
		HF = hf;
		E().startFamily(string(hf ? "HFST: " : "") + "number of candidates from 0 to 40, every order of weights");
		auto letter = [](int i) { wstring w(1, (wchar_t) (0x100 + 2 * i + 1)); return utf8(w); };
		for (int n = 0; n <= 40; n++) for (int order = 0; order < 8; order++) for (int scale : {1, 500, 800}) {
			if (small && (n % 9 || scale == 500)) continue;
			if (!E().take()) continue;
			string d = num(n) + " candidates, order " + num(order) + ", scale " + num(scale); E().desc(d);
			Net err; int t = err.add(); err.arc(0, "a", "a", 0); err.arc(t, "a", "a", t); err.fin(t);
			vector<std::pair<string, int>> l;
			for (int i = 0; i < n; i++) {
				int w = order == 0 ? i : order == 1 ? n - i : order == 2 ? 3 : order == 3 ? i % 5 : order == 4 ? (i * 7) % 41 : order == 5 ? (i < n / 2 ? 0 : i) : order == 6 ? (i * 17) % 41 : 40 - (i * 11) % 41;
				bool inModel = order % 2; err.arc(0, "a", letter(i), t, inModel ? w * scale : 0); l.push_back({letter(i) + "a", inModel ? 0 : w * scale});
			}
			hfScale = scale == 1 ? 0.125f : 1;
			checkAll(acceptor(l), err, {L"aa", L"aaa", L"a"}, d, n & 1);
		}
		}
		HF = false; hfScale = 1;
		E().startFamily("states with 245 to 265 and about 512 transitions");
		for (int n = 245; n <= 520; n = n == 265 ? 505 : n + 1) {
			if (small && n % 5 && n != 254 && n != 255 && n != 256) continue;
			if (!E().take()) continue;
			string d = num(n) + " transitions"; E().desc(d);
			auto sym = [](int i) { wstring w(1, (wchar_t) (0x4E00 + i)); return utf8(w); };
			Net err, acc; int t = err.add(); err.fin(t); vector<std::pair<string, int>> l;
			for (int i = 0; i < n; i++) { err.arc(0, sym(i), sym(i), 0); err.arc(t, sym(i), sym(i), t); err.arc(0, sym(i), sym((i + 1) % n), t, 3 + i % 50); }
			for (int i = 0; i < n; i++) l.push_back({sym(i) + sym((i * 7) % n), i % 90});
			acc = acceptor(l); vector<wstring> ask;
			for (int i = 0; i < n; i += small ? 13 : 1) { ask.push_back(fi::widen(sym(i) + sym((i * 7) % n))); ask.push_back(fi::widen(sym((i + n - 1) % n) + sym((i * 7) % n))); ask.push_back(fi::widen(sym(i) + sym((i * 7 + n - 1) % n))); }
			checkAll(acc, err, ask, d, n & 1);
		}
		E().startFamily("word lengths");
		for (size_t n : {2, 50, 127, 128, 253, 254, 255, 256}) {
			if (!E().take()) continue;
			string d = num((long long) n) + " letters"; E().desc(d);
			Net acc, err = once(1, 0); int t = acc.add(); acc.arc(0, "a", "a", 0); acc.arc(0, "b", "b", t, 1); acc.arc(t, "a", "a", t); acc.fin(t);
			install(acc, err); Handle h(where(), tag()); E().step(2);
			wstring w(n, L'a'); vector<wstring> got;
			wchar_t ** a = voikkoSuggestUcs4(h, w.c_str()); got = toVec(a); voikko_free_suggest_ucs4(a);
			size_t want = n > 255 ? 0 : 5; if (n < 5) want = n;
			if (got.size() != want) E().fail(d, num((long long) got.size()) + " suggestions");
			for (auto & s : got) if (s.size() != n || std::count(s.begin(), s.end(), L'b') != 1) E().fail(d, "wrong suggestion");
		}
	}
	// ---- suggestions for words with capitals: written with the capitals of the word, still best first and without repetition
	{
		const vector<string> lx = {"ab", "Ab", "ba", "AB", "bab", "Bab"}; const vector<wstring> abc = {L"a", L"A", L"b", L"B"};
		const auto ask = wordsOver(abc, 2, small ? 2 : 3);
		for (int hf = 0; hf < 2; hf++) {
			HF = hf;
			E().startFamily(string(hf ? "HFST: " : "") + "suggestions for every letter case pattern, every set of words");
			for (size_t m = 0; m < 64; m += small ? 7 : 1) for (int shape = 0; shape < 3; shape++) for (int o = 0; o < 3; o++) {
				if (!E().take()) continue;
				vector<std::pair<string, int>> l; string d = "options " + num(o) + " edits " + num(shape) + " words"; for (size_t i = 0; i < lx.size(); i++) if (m >> i & 1) { int w = (int) (i * 5 + m) % 7; l.push_back({lx[i], w}); d += " " + lx[i] + "/" + num(w); }
				E().desc(d);
				Net acc = acceptor(l), err; int t = err.add(), u = err.add(), cost = 1;
				for (int x : {0, t, u}) { for (auto & c : abc) err.arc(x, utf8(c), utf8(c), x); err.fin(x, 0); }
				for (auto & p : vector<std::pair<string, string>>{{"a", "A"}, {"A", "a"}, {"B", "b"}, {"b", "B"}, {"a", "b"}, {"A", "b"}}) { if (shape == 1 && p.second == "b" && p.first != "B") continue; err.arc(0, p.first, p.second, t, cost); if (shape) err.arc(t, p.first, p.second, u, cost + 2); cost += 2; }
				install(acc, err); Handle h(where(), tag());
				if (o == 1) voikkoSetBooleanOption(h, VOIKKO_OPT_ACCEPT_ALL_UPPERCASE, 0); if (o == 2) voikkoSetBooleanOption(h, VOIKKO_OPT_IGNORE_DOT, 1);
				for (wstring w : ask) for (int dot = 0; dot < (o == 2 ? 2 : 1); dot++) {
					if (o == 2 && w.size() + dot < 3) continue;
					auto found = words(acc, err, w); if (found.size() > 5) continue;
					std::map<wstring, int> want; sp::Case k = sp::caseOf(w);
					for (auto & p : found) {
						wstring x = fi::widen(p.first);
						if ((k == sp::FIRST || (k == sp::MIXED && ref::isUpper(w[0]))) && sp::caseOf(x) == sp::LOWER) x[0] = ref::upper(x[0]);
						if (k == sp::UPPER && o != 1) x = allUpper(x);
						if (dot) x += L'.';
						auto i = want.insert({x, p.second}).first; i->second = std::min(i->second, p.second);
					}
					wstring q = dot ? w + L"." : w; E().step();
					wchar_t ** a = voikkoSuggestUcs4(h, q.c_str()); auto got = toVec(a); voikko_free_suggest_ucs4(a);
					string g, e, bad; for (auto & x : got) g += utf8(x) + " "; for (auto & p : want) e += utf8(p.first) + "/" + num(p.second) + " ";
					if (got.size() != want.size()) bad = "number"; std::set<wstring> seen;
					for (size_t i = 0; i < got.size(); i++) { if (!want.count(got[i]) || !seen.insert(got[i]).second) bad = "contents"; else if (i && want.count(got[i - 1]) && want[got[i - 1]] > want[got[i]]) bad = "order"; }
					if (!bad.empty()) { E().fail(d, show(q) + ": wrong " + bad + ": " + g + "; expected " + e); break; }
					E().state(hashStr(g + utf8(q)));
				}
			}
		}
		HF = false;
	}
	// ---- spelling with letter case and the dot
	{
		const vector<string> lx = {"a", "A", "ab", "Ab", "aB", "AB", "ab.", "b-"};
		const vector<wstring> abc = {L"a", L"A", L"b", L"B", L".", L"-"};
		const auto ask = wordsOver(abc, 1, small ? 2 : 4);
		for (int hf = 0; hf < 2; hf++) {
		HF = hf;
		E().startFamily(string(hf ? "HFST " : "") + "spelling: every set of words differing in letter case, every word, options");
		for (size_t m = 0; m < 256; m += small ? 11 : 1) for (int o = 0; o < 16; o++) {
			if (small && o % 5) continue;
			if (!th && !small && (m + o) % 4) continue;
			if (!E().take()) continue;
			vector<std::pair<string, int>> l; string d = "options " + num(o) + " words"; for (size_t i = 0; i < lx.size(); i++) if (m >> i & 1) { l.push_back({lx[i], (int) i}); d += " " + lx[i]; }
			E().desc(d);
			Net acc = acceptor(l); Net err; err.fin(0); if (hf) for (auto & c : abc) err.arc(0, utf8(c), utf8(c), 0, 1); install(acc, err);
			Handle h(where(), tag());
			voikkoSetBooleanOption(h, VOIKKO_OPT_ACCEPT_FIRST_UPPERCASE, o & 1); voikkoSetBooleanOption(h, VOIKKO_OPT_ACCEPT_ALL_UPPERCASE, o >> 1 & 1); voikkoSetBooleanOption(h, VOIKKO_OPT_IGNORE_DOT, o >> 2 & 1);
			voikkoSetBooleanOption(h, VOIKKO_OPT_IGNORE_NONWORDS, 0);
			if (o & 8) voikkoSetIntegerOption(h, VOIKKO_SPELLER_CACHE_SIZE, -1);
			std::set<wstring> in; for (auto & p : l) in.insert(fi::widen(p.first));
			auto look = [&](const wstring & w) { if (in.count(w)) return sp::OK; if (!w.empty() && ref::isLower(w[0])) { wstring v = w; v[0] = ref::upper(v[0]); if (in.count(v)) return sp::CAP_FIRST; if (hf && (o & 2) && w == ref::lower(w) && in.count(allUpper(w))) return sp::CAP_ERROR; } return sp::FAILED; };
			for (auto & w : ask) {
				bool first = o & 1, all = o & 2, dot = o & 4, want = false;
				sp::Case k = sp::caseOf(w); if (k == sp::UPPER && !all) k = sp::MIXED;
				vector<wstring> forms = {w}; if (dot && w.back() == L'.') forms.push_back(w.substr(0, w.size() - 1));
				for (wstring f : forms) {
					bool up = ref::isUpper(w[0]);
					if (k == sp::MIXED || k == sp::NONE) { if (!f.empty()) f[0] = ref::lower(f[0]); auto r = look(f); if ((r == sp::OK && (first || !up)) || (r == sp::CAP_FIRST && up)) want = true; continue; }
					auto r = look(ref::lower(f)); if (k == sp::UPPER ? r != sp::FAILED : k == sp::LOWER ? r == sp::OK : (r == sp::OK && first) || r == sp::CAP_FIRST) want = true;
				}
				E().step(); int got = voikkoSpellUcs4(h, w.c_str());
				if (got != (want ? 1 : 0)) { E().fail(d, show(w) + ": verdict " + num(got) + ", expected " + num(want)); break; }
				E().state(hashStr(d.substr(d.find("words")) + utf8(w), got));
			}
		}
		}
		HF = false;
	}
	return E().finish();
}
