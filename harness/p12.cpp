// P12: the byte-string functions answer as the wide-character functions do; input that is not UTF-8 is refused.
#include <memory>
#include <cstring>
#include "api.hpp"
using namespace mc;
static vector<VoikkoHandle *> HS;
// an independent decoder: true and the characters if s is valid UTF-8
static bool nonchar; // U+FFFE and U+FFFF, which are not characters, may be refused
static bool decode(const string & s, wstring & out) {
	out.clear(); nonchar = false;
	for (size_t i = 0; i < s.size();) {
		unsigned char c = s[i]; int n; unsigned v, low;
		if (c < 0x80) { n = 0; v = c; low = 0; } else if ((c & 0xE0) == 0xC0) { n = 1; v = c & 0x1F; low = 0x80; } else if ((c & 0xF0) == 0xE0) { n = 2; v = c & 0xF; low = 0x800; } else if ((c & 0xF8) == 0xF0) { n = 3; v = c & 7; low = 0x10000; } else return false;
		if (i + n >= s.size()) return false;
		for (int k = 1; k <= n; k++) { unsigned char d = s[i + k]; if ((d & 0xC0) != 0x80) return false; v = v << 6 | (d & 0x3F); }
		if (v < low || v > 0x10FFFF || (v >= 0xD800 && v < 0xE000)) return false;
		if (v == 0xFFFE || v == 0xFFFF) nonchar = true;
		out += (wchar_t) v; i += n + 1;
	}
	return true;
}
static string hex(const string & s) { string r; char b[8]; for (unsigned char c : s) { snprintf(b, 8, c >= 32 && c < 127 ? "%c" : "<%02x>", c); r += b; } return r.size() > 300 ? r.substr(0, 140) + "..." + r.substr(r.size() - 140) + " (" + num((long long) s.size()) + " bytes)" : r; }
static wstring insertRef(VoikkoHandle * h, const wstring & w, bool ctx, bool & ok) {
	char * p = voikkoHyphenateUcs4(h, w.c_str()); ok = p; wstring r;
	if (p) { for (size_t i = 0; i < w.size() && p[i]; i++) { if (p[i] == '-') { r += L'+'; r += w[i]; } else if (p[i] == ' ' || !ctx) r += w[i]; else if (p[i] == '=') r += w[i] == L'-' ? L'-' : L'+'; } voikkoFreeCstr(p); }
	return r;
}
static void same(const string & d, const string & what, const string & wide, const string & bytes) {
	E().step(2);
	if (wide != bytes) E().fail(d, what + ": wide gives " + wide.substr(0, 300) + ", bytes give " + bytes.substr(0, 300));
}
// word functions; s without zero bytes
static void word(const string & s, bool slow = true) {
	wstring w; bool valid = decode(s, w); if (nonchar) return;
	string d = hex(s);
	E().desc(d);
	for (auto h : HS) {
		if (!valid) {
			E().step(5);
			int r = voikkoSpellCstr(h, s.c_str());
			if (r != VOIKKO_CHARSET_CONVERSION_FAILED) E().fail(d, "spelling result " + num(r) + " for text that is not UTF-8");
			if (char ** a = voikkoSuggestCstr(h, s.c_str())) { E().fail(d, "suggestions for text that is not UTF-8"); voikkoFreeCstrArray(a); }
			if (char * p = voikkoHyphenateCstr(h, s.c_str())) { E().fail(d, "hyphenation of text that is not UTF-8"); voikkoFreeCstr(p); }
			if (char * p = voikkoInsertHyphensCstr(h, s.c_str(), "-", 1)) { E().fail(d, "hyphenation of text that is not UTF-8"); voikkoFreeCstr(p); }
			if (auto ** a = voikkoAnalyzeWordCstr(h, s.c_str())) { E().fail(d, "analyses of text that is not UTF-8"); voikko_free_mor_analysis(a); }
			break;
		}
		string sp = num(voikkoSpellCstr(h, s.c_str()));
		E().state(hashStr(sp + num((long long) w.size())));
		same(d, "spelling", api::spell(h, w), sp);
		if (slow) same(d, "suggestions", api::suggest(h, w), api::suggestC(h, s));
		if (w.empty()) continue;
		bool longWord = w.size() > LIBVOIKKO_MAX_WORD_CHARS;
		bool ok;
		same(d, "hyphenation", longWord ? "null" : api::hyphens(h, w), api::hyphensC(h, s));
		for (int ctx = 0; ctx < 2; ctx++) { wstring r = insertRef(h, w, ctx, ok); same(d, "inserted hyphens", longWord || !ok ? "null" : utf8(r), api::insert(h, s, "+", ctx)); }
		string a = api::analyze(h, w), b = api::analyzeC(h, s);
		if (a == "null") a = ""; if (b == "null") b = "";
		same(d, "analyses", a, b);
	}
}
static void text(const string & s, bool all = true) {
	wstring w; bool valid = decode(s, w); if (nonchar) return;
	string d = hex(s);
	E().desc(d);
	// a buffer that ends where the text ends
	std::unique_ptr<char[]> b(new char[s.size() + 1]); memcpy(b.get(), s.data(), s.size());
	char * exact = new char[s.size() ? s.size() : 1]; memcpy(exact, s.data(), s.size());
	for (auto h : HS) {
		size_t n = 12345;
		if (!valid) {
			size_t good = 0; wstring head; while (good < s.size() && decode(s.substr(0, good + 1), head)) good++;
			// "good" may stop inside a character; count the characters before the first bad one
			size_t chars = 0; for (size_t k = 1; k <= s.size(); k++) { wstring x; if (decode(s.substr(0, k), x)) chars = x.size(); }
			int t = voikkoNextTokenCstr(h, exact, s.size(), &n);
			if (t != TOKEN_NONE && n > chars) E().fail(d, "token of " + num((long long) n) + " characters from text of which only " + num((long long) chars) + " are UTF-8");
			if (voikkoNextSentenceStartCstr(h, exact, s.size(), &n) != SENTENCE_NONE) E().fail(d, "sentence in text that is not UTF-8");
			if (auto * e = voikkoNextGrammarErrorCstr(h, exact, s.size(), 0, 0)) { E().fail(d, "grammar error in text that is not UTF-8"); voikkoFreeGrammarError(e); }
			E().step(3);
			break;
		}
		same(d, "tokens", api::tokens(h, w), api::tokensC(h, s));
		if (!all) continue;
		same(d, "sentences", api::sentences(h, w), api::sentencesC(h, s));
		same(d, "grammar errors", api::grammar(h, w), api::grammarC(h, s));
		if (s.size()) {
			size_t n2 = 0; int t1 = voikkoNextTokenCstr(h, exact, s.size(), &n), t2 = voikkoNextTokenUcs4(h, w.c_str(), w.size(), &n2);
			same(d, "first token", num(t2) + "+" + num((long long) n2), num(t1) + "+" + num((long long) n));
			t1 = voikkoNextSentenceStartCstr(h, exact, s.size(), &n); t2 = voikkoNextSentenceStartUcs4(h, w.c_str(), w.size(), &n2);
			same(d, "first sentence", num(t2) + "+" + num((long long) n2), num(t1) + "+" + num((long long) n));
			for (int skip = 0; skip < 3; skip++) for (size_t start = 0; start < w.size() + 1; start += 3) {
				auto * e = voikkoNextGrammarErrorCstr(h, exact, s.size(), start, skip); string g = api::error(e); if (e) voikkoFreeGrammarError(e);
				same(d, "grammar error from " + num((long long) start), api::grammarAt(h, w.c_str(), w.size(), start, skip), g);
				if (w.size() > 60) break;
			}
		}
	}
	delete[] exact;
}
static string rep(const string & s, size_t n) { string r; for (size_t i = 0; i < n; i++) r += s; return r; }
int main(int argc, char ** argv) {
	E().init(argc, argv);
	bool small = false, T = E().thorough;
	for (int i = 1; i < argc; i++) if (!strcmp(argv[i], "--small")) small = true;
	auto n = [&](size_t s, size_t q, size_t t) { return small ? s : T ? t : q; };
	auto words = api::finnishWords();
	for (string e : {"[Ln]äö[Sn][Ny]", "[Ln]žäa[Sn][Ny]", "[Ln]a’a[Sn][Ny]", "[Ln]öä-aa[Sn][Ny]", "[Ln]ŋä[Sn][Ny]", "[Ln]aå[Sn][Ny]", "[Lee]öa[Sn][Ny]", "[Ln]жа[Sn][Ny]"}) words.push_back(e);
	for (size_t k : {(size_t) 63, (size_t) 64, (size_t) 85, (size_t) 86, (size_t) 126, (size_t) 127, (size_t) 128, (size_t) 129, (size_t) 200, (size_t) 253, (size_t) 254, (size_t) 255}) for (string c : {"ä", "b"}) words.push_back("[Ln]" + rep(c, k) + "[Sn][Ny]");
	string root = scratch("p12");
	api::finnish(root, "b", words);
	api::plain(root, "p", "xx-x-p");
	api::hfst(root, "z", "zz");
	Handle h0(root), h1(root), h2(root, "xx-x-p"), h3(root, "zz");
	voikkoSetBooleanOption(h1, VOIKKO_OPT_IGNORE_DOT, 1); voikkoSetBooleanOption(h1, VOIKKO_OPT_IGNORE_NUMBERS, 1); voikkoSetBooleanOption(h1, VOIKKO_OPT_NO_UGLY_HYPHENATION, 1); voikkoSetBooleanOption(h1, VOIKKO_OPT_OCR_SUGGESTIONS, 1); voikkoSetBooleanOption(h1, VOIKKO_OPT_ACCEPT_MISSING_HYPHENS, 1);
	HS = {h0, h1, h2, h3};
	auto W = [&](const string & s, bool slow = true) { if (E().take()) word(s, slow); };
	auto X = [&](const string & s, bool all = true) { if (E().take()) text(s, all); };
	auto words_ = [&](const wstring & w) { W(utf8(w)); };
	E().startFamily("words of one to four byte characters");
	strings({L"a", L"ä", L"Ö", L"\u017E", L"\u2019", L"\uFB01", L"\u0308", L"-", L"1", L"\u0436", L"\U0001F600", L"."}, 0, n(2, 4, 5), words_);
	E().startFamily("texts of one to four byte characters");
	strings({L"kissa", L"ä", L"\u201D", L" ", L".", L"\u2026", L"\u20AC", L"\U0001F600", L",", L"\u0308", L"Ö"}, 0, n(2, 4, 5), [&](const wstring & w) { X(utf8(w)); });
	E().startFamily("every character");
	for (unsigned c = 1; c <= 0x10FFFF; c += c < (small ? 0x300u : 0x3000u) ? 1 : c < 0xD700 ? 61 : c < 0x10010 ? (small ? 37 : 1) : 4093) if (c < 0xD800 || c > 0xDFFF) { string u = utf8(wstring(1, (wchar_t) c)); W(u, c < 0x400); W("a" + u + "a", c < 0x400); X("kissa  " + u + ".", c < 0x400); }
	E().startFamily("long words");
	for (string c : {"a", "ä", "b", "B", "Ä", "\u1E9E", "\U0001F600", "\u0436"}) for (size_t k = 1; k <= 300; k++) { if (small && k % 16 > 1 && (k < 250 || k > 260)) continue; W(rep(c, k), k < 40); W(rep(c, k) + ".", k < 40); W(rep("b", 255 - std::min<size_t>(k, 255)) + rep(c, k), false); }
	E().startFamily("long texts");
	for (string c : {"a", "ä", " ", "\u20AC", "\U0001F600", ".", "a ", "ä, ", "-"}) for (size_t k = 1; k <= 320; k++) { if (small && k % 50 > 2) continue; X(rep(c, k), k % 40 < 3); X("Kissa" + rep(c, k) + "@ab.fi x", k % 40 < 2); }
	E().startFamily("addresses");
	for (size_t head = 1; head <= 220; head++) { if (small && (head < 36 || head > 60) && (head < 90 || head > 110)) continue; for (string c : {"a", "ä"}) for (string sep : {".", "-", "_", "a", "/"}) for (string host : {"@b.fi", "@bcd.ef.fi", "@bcd", "@b.fi.", "@bcdefghijklmnopqrstuvwxyzåäö.fi"}) for (string tail : {"", " kissa", ", kissa", ". Kissa", "\u201D"}) X(rep(c, head / 2) + sep + rep(c, head - head / 2) + host + tail, false); }
	for (size_t len = 30; len <= 130; len++) { if (small && len % 10) continue; for (string c : {"a", "ä"}) for (string p : {"http://", "https://", "-", "http:/"}) for (string tail : {"", ".", ". ", ".a", " a", "\"", "\u20AC", "ä@b.fi"}) X(p + rep(c, len) + tail, false); }
	E().startFamily("byte strings");
	{
		vector<string> reps; for (int c : {0x61, 0x7f, 0x80, 0x84, 0x8f, 0x90, 0x9f, 0xa0, 0xa4, 0xbf, 0xc0, 0xc1, 0xc2, 0xc3, 0xdf, 0xe0, 0xe1, 0xe2, 0xed, 0xef, 0xf0, 0xf3, 0xf4, 0xf5, 0xf8, 0xfc, 0xfe, 0xff}) reps.push_back(string(1, (char) c));
		sequences(reps.size(), 1, n(2, 4, 5), [&](const vector<size_t> & v) { string s; for (auto i : v) s += reps[i]; if (E().take()) { word(s, v.size() < 4); text(s, v.size() < 4); } });
		for (int a = 1; a < 256; a++) for (int b = 1; b < 256; b++) { string s; s += (char) a; s += (char) b; if (E().take()) { word(s, false); text(s); } if (!small) { W("a" + s + "\xa4", false); X("\xe2" + s, false); } }
		if (T) for (int a = 1; a < 256; a++) for (int b = 1; b < 256; b++) for (int c = 1; c < 256; c++) { string s; s += (char) a; s += (char) b; s += (char) c; W(s, false); }
	}
	E().startFamily("broken characters in context");
	for (string bad : {"\x80", "\xc3", "\xc3(", "\xe2\x82", "\xe2\x82z", "\xed\xa0\x80", "\xed\xbf\xbf", "\xf0\x9f\x98", "\xf4\x90\x80\x80", "\xc0\x80", "\xc1\xa1", "\xe0\x80\xa1", "\xf0\x80\x80\xa1", "\xff", "\xfe", "\xf8\x88\x80\x80\x80", "\xfc\x84\x80\x80\x80\x80", "\xc3\xc3\xa4"})
		for (size_t before : {0, 1, 5, 44, 45, 49, 50, 51, 60, 99, 100, 101, 250}) for (size_t after : {0, 1, 5, 300, 301, 400, 700}) for (string c : {"a", "ä", "a "}) { X(rep(c, before) + bad + rep(c, after)); if (before + after < 200 && c != "a ") W(rep(c, before) + bad + rep(c, after), before + after < 12); }
	return E().finish();
}
