// P20: every function with hostile content: no crash, no hang, no access outside the arguments, nothing kept, nothing left to chance.
// Arguments lie directly before (or after) an inaccessible page; fresh heap blocks are filled with two different bytes in turn.
#include "api.hpp"
#include "mheld.hpp"
#include <climits>
using namespace mc;
struct Guard { // a copy of some data that ends at an inaccessible page, or starts after one
	static constexpr size_t PAGE = 4096;
	char * base; size_t cap;
	Guard(size_t bytes) { cap = (bytes + PAGE - 1) / PAGE * PAGE; base = (char *) mmap(nullptr, cap + 2 * PAGE, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0); mprotect(base + PAGE, cap, PROT_READ | PROT_WRITE); }
	void * put(const void * p, size_t n, bool low) { char * at = low ? base + PAGE : base + PAGE + cap - n; if (n > cap) { fprintf(stderr, "argument too long\n"); exit(3); } memcpy(at, p, n); return at; }
};
static Guard * G[2];
static bool lowSide; // arguments directly after the inaccessible page
static const wchar_t * wz(const wstring & w) { return (const wchar_t *) G[0]->put(w.c_str(), (w.size() + 1) * sizeof(wchar_t), lowSide); }
static const wchar_t * wn(const wstring & w) { return (const wchar_t *) G[0]->put(w.c_str(), w.size() * sizeof(wchar_t), lowSide); }
static const char * cz(const string & w) { return (const char *) G[1]->put(w.c_str(), w.size() + 1, lowSide); }
static const char * cn(const string & w) { return (const char *) G[1]->put(w.c_str(), w.size(), lowSide); }
static string raw(const wchar_t * w) { return string((const char *) w, wcslen(w) * sizeof(wchar_t)); }
static string res(wchar_t ** a) { if (!a) return "null"; string r; for (auto ** p = a; *p; p++) r += raw(*p) + "/"; voikko_free_suggest_ucs4(a); return r; }
static string res(char ** a) { if (!a) return "null"; string r; for (auto ** p = a; *p; p++) r += string(*p) + "/"; voikkoFreeCstrArray(a); return r; }
static string res(char * p) { if (!p) return "null"; string r = p; voikkoFreeCstr(p); return r; }
static string res(voikko_mor_analysis ** a) {
	if (!a) return "null";
	string r;
	for (auto ** p = a; *p; p++) {
		std::set<string> kv;
		if (const char ** k = voikko_mor_analysis_keys(*p)) for (; *k; k++) { const wchar_t * v = voikko_mor_analysis_value_ucs4(*p, *k); char * c = voikko_mor_analysis_value_cstr(*p, *k); kv.insert(string(*k) + "=" + (v ? raw(v) : "-") + "=" + (c ? c : "-")); if (c) voikko_free_mor_analysis_value_cstr(c); }
		if (voikko_mor_analysis_value_ucs4(*p, "no such key") || voikko_mor_analysis_value_cstr(*p, "")) kv.insert("?");
		for (auto & s : kv) r += s + ",";
		r += ";";
	}
	voikko_free_mor_analysis(a);
	return r;
}
static string res(VoikkoGrammarError * e) {
	if (!e) return "none";
	string r = num(voikkoGetGrammarErrorCode(e)) + "@" + num((long long) voikkoGetGrammarErrorStartPos(e)) + "+" + num((long long) voikkoGetGrammarErrorLength(e));
	if (const char ** s = voikkoGetGrammarErrorSuggestions(e)) for (; *s; s++) r += ">" + string(*s);
	for (const char * l : {"fi", "en", ""}) { char * d = voikkoGetGrammarErrorShortDescription(e, l); r += d ? d : "-"; if (d) voikkoFreeErrorMessageCstr(d); }
	voikkoFreeGrammarError(e);
	return r;
}
enum { WORDS = 1, TEXTS = 2, BYTES = 4, PAGING = 8 };
static void tell(string & r, const string & s) { r += s; r += '|'; E().step(); }
static string askBytes(VoikkoHandle * h, const string & u, int what) {
	string r;
	if (what & WORDS) {
		tell(r, num(voikkoSpellCstr(h, cz(u)))); tell(r, res(voikkoSuggestCstr(h, cz(u)))); tell(r, res(voikkoHyphenateCstr(h, cz(u)))); tell(r, res(voikkoAnalyzeWordCstr(h, cz(u))));
		for (int c : {0, 1}) { tell(r, res(voikkoInsertHyphensCstr(h, cz(u), "+", c))); tell(r, res(voikkoInsertHyphensCstr(h, cz(u), "", c))); tell(r, res(voikkoInsertHyphensCstr(h, cz(u), "\xc2\xad&shy;", c))); }
	}
	if (what & TEXTS) {
		size_t pos = 0, n; const char * t = cn(u);
		while (pos < u.size()) { n = 0; int k = voikkoNextTokenCstr(h, t + pos, u.size() - pos, &n); tell(r, num(k) + "," + num((long long) n)); if (k == 0 || n == 0 || n > u.size() - pos) break; pos += n; }
		pos = 0;
		while (pos < u.size()) { n = 0; int k = voikkoNextSentenceStartCstr(h, t + pos, u.size() - pos, &n); tell(r, num(k) + "," + num((long long) n)); if (k == 0 || n == 0 || n > u.size() - pos) break; pos += n; }
		for (int s = 0; s < 2500; s++) { string e = res(voikkoNextGrammarErrorCstr(h, t, u.size(), 0, s)); tell(r, e); if (e == "none") break; }
	}
	return r;
}
static string ask(VoikkoHandle * h, const wstring & w, int what) {
	string r;
	if (what & WORDS) { tell(r, num(voikkoSpellUcs4(h, wz(w)))); tell(r, res(voikkoSuggestUcs4(h, wz(w)))); tell(r, res(voikkoHyphenateUcs4(h, wz(w)))); tell(r, res(voikkoAnalyzeWordUcs4(h, wz(w)))); }
	if (what & TEXTS) {
		const wchar_t * t = wn(w); size_t pos = 0, n;
		while (pos < w.size()) { n = 0; int k = voikkoNextTokenUcs4(h, t + pos, w.size() - pos, &n); tell(r, num(k) + "," + num((long long) n)); if (k == 0 || n == 0 || n > w.size() - pos) break; pos += n; }
		pos = 0;
		while (pos < w.size()) { n = 0; int k = voikkoNextSentenceStartUcs4(h, t + pos, w.size() - pos, &n); tell(r, num(k) + "," + num((long long) n)); if (k == 0 || n == 0 || n > w.size() - pos) break; pos += n; }
		for (int s = 0; s < 2500; s++) { string e = res(voikkoNextGrammarErrorUcs4(h, t, w.size(), 0, s)); tell(r, e); if (e == "none") break; }
		if (what & PAGING) for (size_t st = 0; st <= w.size() + 2; st++) for (int s : {0, 1, 2, INT_MAX}) tell(r, res(voikkoNextGrammarErrorUcs4(h, t, w.size(), st, s)));
	}
	if (what & BYTES) { string u; bool ok = true; for (wchar_t c : w) if ((uint32_t) c > 0x10FFFF || (c >= 0xD800 && c < 0xE000)) ok = false; if (ok) r += askBytes(h, utf8(w), what); }
	return r;
}
struct Set { int kind, opt, val; };
static string root, hroot; static const string & where(const char * lang) { return lang[0] == 'z' ? hroot : root; }
static const char * LANGS[] = {"fi-x-a", "xx-x-plain", "yy", "fi-x-loop", "zz"};
// open, ask with one filling, close; again with the other; the answers must agree and nothing may be left
static void run(const string & d, const char * lang, const vector<Set> & set, const std::function<string(VoikkoHandle *)> & body) {
	string first;
	for (int round = 0; round < 2; round++) {
		heapFill = round ? 0x41 : 0xFF; lowSide = round; // L'\x41414141' and L'\xFFFFFFFF'
		Held before = held();
		const char * err = nullptr;
		VoikkoHandle * h = voikkoInit(&err, lang, where(lang).c_str());
		if (!h) { heapFill = -1; E().fail(d, string("cannot open: ") + (err ? err : "?")); return; }
		for (auto & s : set) { if (s.kind) voikkoSetIntegerOption(h, s.opt, s.val); else voikkoSetBooleanOption(h, s.opt, s.val); }
		bool differ = false; long left; { string r = body(h); Held mid = held(); (void) mid; if (round == 0) quietly([&] { first = r; }); else differ = r != first; }
		voikkoTerminate(h);
		Held after = held(); left = after.b - before.b; (void) left; heapFill = -1;
		if (after != before) { E().fail(d, "after closing: " + more(before, after)); return; }
		if (differ) { E().fail(d, "the answers depend on the contents of fresh memory"); return; }
	}
	quietly([&] { E().state(hashStr(first)); });
}
int main(int argc, char ** argv) {
	E().init(argc, argv);
	bool small = false; for (int i = 1; i < argc; i++) if (string(argv[i]) == "--small") small = true;
	const bool th = E().thorough;
	G[0] = new Guard(4 << 20); G[1] = new Guard(4 << 20);
	string home = scratch("home"); setenv("HOME", home.c_str(), 1); root = scratch("root");
	api::finnish(root, "a"); api::plain(root, "plain", "xx-x-plain"); hroot = scratch("hroot"); api::hfst(hroot, "zz", "zz");
	vf::dict(root, "nul", "Language: yy\nDescription: none\nMorphology-Backend: null\nSpeller-Backend: AllOk\nSuggestion-Backend: null\nGrammar-Backend: finnish\n", {});
	{ // compounds without end, in many ways
		vf::Net n; int c = n.add(), e = n.add(), f = n.add(); n.arc(0, "", "[Ln]", c);
		for (const char * s : {"a", "i", "\xc3\xa4"}) { n.arc(c, s, s, c); n.arc(c, s, s, e); }
		n.arc(e, "", "[Bc]", 0); n.arc(e, "", "[Bh]", f); n.arc(f, "", "[Bc]", 0); n.arc(e, "-", "-", f); n.arc(e, "", "[Sn]", n.add()); n.arc((int) n.states.size() - 1, "", "[Ny]", n.add()); n.fin((int) n.states.size() - 1);
		vf::dict(root, "loop", "Language: fi-x-loop\nDescription: loop\nGrammar-Backend: null\n", {{"mor.vfst", vf::Writer::write(n, false)}});
	}
	// warm-up: tables made on first use
	for (auto l : LANGS) { const char * e; if (VoikkoHandle * h = voikkoInit(&e, l, where(l).c_str())) { ask(h, L"Kissa sy\u00F6 joten kuten  a,b .", WORDS | TEXTS | BYTES | PAGING); voikkoTerminate(h); } }
	const int ALL = WORDS | TEXTS | BYTES | PAGING;
	const vector<vector<Set>> opts = {{}, {{0, 0, 1}, {0, 11, 1}, {0, 12, 1}, {0, 4, 1}, {0, 8, 1}, {0, 10, 0}, {0, 13, 1}, {0, 16, 1}, {1, 9, 5}, {1, 17, 1}}};
	// ---- every short string
	vector<wstring> abc; for (uint32_t c : vector<uint32_t>{'a', 'K', 0xE4, '1', ' ', '.', ',', '-', '\'', '"', ':', '/', '@', '(', ')', '[', '*', '\n', '\t', 0xA0, 0xAD, 0x301, 0x308, 0x2019, 0x201D, 0x2026, 0xFB01, 0xFB03, 0x149, 0xFEFF, 0xFFFD, 0xD800, 0xDFFF, 0x1F600, 0x10FFFF, 0x110000, 0x7FFFFFFF, 0x80000000, 0xFFFFFFFF}) abc.push_back(wstring(1, (wchar_t) c));
	const size_t len = small ? 2 : th ? 4 : 3;
	E().startFamily("every string of at most " + num((long long) len) + " of " + num((long long) abc.size()) + " characters, grouped by all but the last one, every function");
	strings(abc, 0, len - 1, [&](const wstring & p) {
		for (size_t l : {0, 1, 2, 4}) for (size_t o = 0; o < opts.size(); o++) {
			if (l == 2 && o) continue;
			if (small && (hashStr(string((const char *) p.data(), p.size() * 4)) + l + o) % 6) continue;
			if (!E().take()) continue;
			string d = string(LANGS[l]) + " options " + num((long long) o) + " " + show(p) + " + every character"; E().desc(d);
			run(d, LANGS[l], opts[o], [&](VoikkoHandle * h) { string r; for (auto & c : abc) { uint64_t x = hashStr(ask(h, p + c, p.size() < 2 ? ALL : ALL & ~PAGING)); r += string((char *) &x, 8); } return r; });
		}
	});
	// ---- dictionary words and separators in every order
	const vector<wstring> parts = {L"kissa", L"Turku", L"linja-", L"auto", L"-", L" ", L".", L"\u00AD", L"\u0301", L"esim.", L"EAA", L"joten kuten", L"\"", L"2", L"www.a.fi", L"\xFFFFFFFF"};
	const size_t plen = small ? 2 : th ? 5 : 3;
	E().startFamily("every sequence of at most " + num((long long) plen) + " of " + num((long long) parts.size()) + " words and separators, grouped by all but the last one");
	strings(parts, 1, plen - 1, [&](const wstring & p) {
		for (size_t o = 0; o < opts.size(); o++) {
			if (small && (hashStr(string((const char *) p.data(), p.size() * 4)) + o) % 3) continue;
			if (!E().take()) continue;
			string d = string("options ") + num((long long) o) + " " + show(p) + " + every part"; E().desc(d);
			run(d, "fi-x-a", opts[o], [&](VoikkoHandle * h) { string r; for (auto & c : parts) { uint64_t x = hashStr(ask(h, p + c, ALL & ~PAGING)); r += string((char *) &x, 8); } return r; });
		}
	});
	// ---- lengths
	vector<wstring> units = {L"a", L"\u00E4", L"K", L"1", L"-", L".", L"'", L"\u00AD", L"\u0301", L"a\u0301", L"\uFB03", L" ", L"\n", L"kissa", L"kissa ", L"kissa-", L"linja-auto", L"Kissa. ", L"a,", L"\"", L"www.a", L"a@a.", L"a:", L"(", L"joten kuten ", L"\U0001F600", L"\xFFFFFFFF", L"esim. ", L"Ka", L"aA", L"i-", L"a'", L"1. ", L"* a\n", L"kissa koira"};
	vector<size_t> lengths; for (size_t n = 0; n <= 40; n++) lengths.push_back(n); for (size_t n = 120; n <= 136; n++) lengths.push_back(n); for (size_t n = 240; n <= 270; n++) lengths.push_back(n);
	for (size_t n : {400, 499, 500, 501, 511, 512, 513, 1000, 1023, 1024, 1025, 1999, 2000, 2001, 4095, 4096, 4097}) lengths.push_back(n);
	E().startFamily("every length up to 40, around 128 and 255, and up to 4097, of " + num((long long) units.size()) + " repeated units");
	for (auto & u : units) for (size_t n : lengths) for (int l : {0, 1, 3, 4}) {
		if ((l == 1 || l == 4) && u.size() > 2) continue;
		if (l == 3 && u.find_first_not_of(L"a\u00E4i-'") != wstring::npos) continue;
		if (small && (n > 40 && n != 255 && n != 256 && n != 500 && n != 4096)) continue;
		if (small && (n < 40 && n % 7)) continue;
		if (!E().take()) continue;
		wstring w; while (w.size() < n) w += u; w.resize(n);
		string d = string(LANGS[l]) + " " + show(u) + " x " + num((long long) n) + " characters"; E().desc(d);
		run(d, LANGS[l], n % 2 ? opts[1] : opts[0], [&](VoikkoHandle * h) { return ask(h, w, WORDS | TEXTS | BYTES); });
	}
	E().startFamily("long texts");
	for (auto & u : units) for (size_t n : th ? vector<size_t>{19999, 20000, 20001, 65535, 65536, 65537, 200000} : vector<size_t>{20000, 65537}) {
		if (small && n != 20000) continue;
		if (u == L"-" && n > 20001) continue; // leading hyphens take quadratic time: some ten seconds for 40000
		if (!E().take()) continue;
		wstring w; while (w.size() < n) w += u; w.resize(n);
		string d = show(u) + " x " + num((long long) n) + " characters"; E().desc(d);
		run(d, "fi-x-a", opts[0], [&](VoikkoHandle * h) {
			string r; const wchar_t * t = wn(w); size_t len = 0; int k = voikkoNextTokenUcs4(h, t, n, &len); tell(r, num(k) + "," + num((long long) len)); k = voikkoNextSentenceStartUcs4(h, t, n, &len); tell(r, num(k) + "," + num((long long) len));
			for (int s : {0, 1, 2, 100, 1000, 100000}) tell(r, res(voikkoNextGrammarErrorUcs4(h, t, n, 0, s)));
			for (size_t st : {n / 2, n - 1, n}) tell(r, res(voikkoNextGrammarErrorUcs4(h, t, n, st, 0)));
			return r + ask(h, w, WORDS); });
	}
	// the n-th character is special
	E().startFamily("one special character at every position of a word of 254, 255 and 256 letters");
	for (size_t n : {20, 254, 255, 256}) for (auto & c : abc) for (size_t at = 0; at < n; at += small ? 37 : (n == 20 || th) ? 1 : 5) {
		if (!E().take()) continue;
		wstring w(n, L'a'); w.replace(at, 1, c); string d = "position " + num((long long) at) + " of " + num((long long) n) + ": " + show(c); E().desc(d);
		run(d, "fi-x-a", at % 2 ? opts[1] : opts[0], [&](VoikkoHandle * h) { return ask(h, w, WORDS | (n == 20 ? TEXTS : 0)); });
	}
	// ---- byte strings
	vector<string> bytes; for (int b : vector<int>{'a', '.', ' ', 0x80, 0xBF, 0xC2, 0xC3, 0xA4, 0xAD, 0xE2, 0x82, 0xAC, 0xED, 0xA0, 0xEF, 0xF0, 0x9F, 0xF4, 0x90, 0xF8, 0xFC, 0xFE, 0xFF, 0xC0, 0xC1}) bytes.push_back(string(1, (char) b));
	const size_t blen = small ? 2 : th ? 5 : 4;
	E().startFamily("every byte string of at most " + num((long long) blen) + " of " + num((long long) bytes.size()) + " bytes, grouped by all but the last one");
	std::function<void(const string &)> grow = [&](const string & p) {
		if (E().take()) {
			string d; for (unsigned char c : p) { char b[8]; snprintf(b, 8, "%02x ", c); d += b; } d += "+ every byte"; E().desc(d);
			run(d, "fi-x-a", {}, [&](VoikkoHandle * h) { string r; for (auto & c : bytes) { uint64_t x = hashStr(askBytes(h, p + c, WORDS | TEXTS)); r += string((char *) &x, 8); } return r; });
		}
		if (p.size() + 1 < blen) for (auto & c : bytes) grow(p + c);
	};
	grow("");
	E().startFamily("a text of two-, three- or four-byte characters cut after every byte, at every window length");
	for (string c : {"\xc3\xa4", "\xe2\x82\xac", "\xf0\x9f\x98\x80", "a\xcc\x88"}) for (size_t n = 0; n <= 1100; n += n < 30 || (n > 490 && n < 520) || n > 1070 ? 1 : small ? 97 : 13) {
		if (!E().take()) continue;
		string u; while (u.size() < n) u += c; u.resize(n); string d = show(c) + " cut to " + num((long long) n) + " bytes"; E().desc(d);
		run(d, "fi-x-a", {}, [&](VoikkoHandle * h) { return askBytes(h, u, n < 300 ? WORDS | TEXTS : TEXTS); });
	}
	// ---- options
	E().startFamily("every option with every value of a list, every function");
	const vector<wstring> probes = {L"kissa", L"Kissa-koira.", L"linja-auto", L"a1", L"KISSA sy\u00F6 joten kuten ", L"\u00ADkis\u00ADsa\u00AD", L"kisssa", L"koira-auto-tie", L"turkuu"};
	for (int kind : {0, 1}) for (int o = -2; o < 22; o++) for (int v : {INT_MIN, -2, -1, 0, 1, 2, 3, 5, 17, 254, 255, 256, 257, INT_MAX}) {
		if (kind == 0 && (v < 0 || v > 1)) continue;
		if (kind == 1 && o == 17 && v > 6) continue; // sizes beyond memory
		if (!E().take()) continue;
		string d = string(kind ? "integer" : "boolean") + " option " + num(o) + " = " + num(v); E().desc(d);
		run(d, "fi-x-a", {{kind, o, v}}, [&](VoikkoHandle * h) { string r; for (auto & p : probes) r += ask(h, p, ALL); return r; });
	}
	// ---- histories of settings, questions and handles
	struct Op { string name; std::function<void(VoikkoHandle *, string &)> f; };
	vector<Op> ops;
	for (int v : {-1, 0, 1, 2, 5}) ops.push_back({"cache " + num(v), [v](VoikkoHandle * h, string & r) { r += num(voikkoSetIntegerOption(h, 17, v)); }});
	for (int v : {0, 1}) { ops.push_back({"ocr " + num(v), [v](VoikkoHandle * h, string & r) { r += num(voikkoSetBooleanOption(h, 8, v)); }}); ops.push_back({"dot " + num(v), [v](VoikkoHandle * h, string & r) { r += num(voikkoSetBooleanOption(h, 0, v)); }}); }
	ops.push_back({"min 300", [](VoikkoHandle * h, string & r) { r += num(voikkoSetIntegerOption(h, 9, 300)); }});
	ops.push_back({"words", [](VoikkoHandle * h, string & r) { for (auto w : {L"kissa", L"kisssa", L"KOIRA.", L"\xFFFFFFFF" L"ab"}) r += ask(h, w, WORDS); }});
	ops.push_back({"text", [](VoikkoHandle * h, string & r) { r += ask(h, L"Kissa sy\u00F6 joten kuten  . kissa koira", TEXTS); }});
	ops.push_back({"long text", [](VoikkoHandle * h, string & r) { wstring t; for (int i = 0; i < 600; i++) t += L"kissa , "; r += ask(h, t, TEXTS); }});
	ops.push_back({"another handle", [](VoikkoHandle *, string & r) { const char * e; VoikkoHandle * o = voikkoInit(&e, "xx-x-plain", root.c_str()); if (o) { r += ask(o, L"abb", WORDS); voikkoTerminate(o); } }});
	ops.push_back({"failing handle", [](VoikkoHandle *, string & r) { const char * e = nullptr; VoikkoHandle * o = voikkoInit(&e, "qq", root.c_str()); r += o ? "?" : e; }});
	const size_t depth = small ? 2 : th ? 4 : 3;
	E().startFamily("every history of at most " + num((long long) depth) + " of " + num((long long) ops.size()) + " settings, questions and openings");
	sequences(ops.size(), 1, depth, [&](const vector<size_t> & v) {
		if (!E().take()) return;
		string d; for (size_t i : v) d += (d.empty() ? "" : "; ") + ops[i].name;
		E().desc(d);
		run(d, "fi-x-a", {}, [&](VoikkoHandle * h) { string r; for (size_t i : v) ops[i].f(h, r); return r + ask(h, L"kissa", WORDS); });
	});
	// ---- listings
	E().startFamily("listings of directories of every kind");
	writeFile(root + "/file", "x"); mkdirs(root + "/empty"); mkdirs(root + "/bad/5/mor-x"); writeFile(root + "/bad/5/mor-x/index.txt", string(100000, 'x'));
	mkdirs(root + "/odd/5/mor-x"); writeFile(root + "/odd/5/mor-x/index.txt", string("\xff\xfe\x00\x01", 4)); mkdirs(root + "/odd/5/mor-"); mkdirs(root + "/odd/5/x"); mkdirs(root + "/odd/5/mor-dir/index.txt");
	for (const string & p : vector<string>{"", "/", root, root + "/", root + "/none", root + "/file", root + "/empty", root + "/bad", root + "/odd", string(5000, 'x'), "/" + string(300, 'y'), "\xff\xfe", root + "//5", "."}) for (int f = 0; f < 6; f++) {
		if (!E().take()) continue;
		string d = "function " + num(f) + " path " + show(p.substr(0, 60)); E().desc(d);
		string prev;
		for (int round = 0; round < 2; round++) {
			heapFill = round ? 0x41 : 0xFF; Held before = held();
			{
				string r; E().step();
				if (f == 0) { voikko_dict ** l = voikko_list_dicts(p.c_str()); if (l) { for (auto ** q = l; *q; q++) r += string(voikko_dict_language(*q)) + voikko_dict_script(*q) + voikko_dict_variant(*q) + voikko_dict_description(*q) + "/"; voikko_free_dicts(l); } }
				else if (f < 4) { char ** l = f == 1 ? voikkoListSupportedSpellingLanguages(p.c_str()) : f == 2 ? voikkoListSupportedHyphenationLanguages(p.c_str()) : voikkoListSupportedGrammarCheckingLanguages(p.c_str()); r = res(l); }
				else if (f == 4) { const char * e = nullptr; VoikkoHandle * h = voikkoInit(&e, "fi-x-a", p.c_str()); r = h ? "opened" : e ? e : "no message"; if (h) voikkoTerminate(h); }
				else { const char * e = nullptr; VoikkoHandle * h = voikkoInit(&e, p.c_str(), root.c_str()); r = h ? "opened" : e ? e : "no message"; if (h) voikkoTerminate(h); }
				std::sort(r.begin(), r.end());
				if (round && r != prev) quietly([&] { E().fail(d, "the answers depend on the contents of fresh memory"); });
				quietly([&] { prev = r; E().state(hashStr(r, f)); });
			}
			heapFill = -1; Held after = held();
			if (after != before) { E().fail(d, more(before, after)); break; }
		}
	}
	heapFill = -1;
	return E().finish();
}
