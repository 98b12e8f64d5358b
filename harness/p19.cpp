// P19: equivalent character forms and letter case, over all code points and all short words of mixed forms.
#include "api.hpp"
#include "ref_text.hpp"
#include <clocale>
#include <cwctype>
using namespace mc;
static const int COMPOSED[][3] = {{0x41,0x300,0xC0},{0x41,0x301,0xC1},{0x41,0x302,0xC2},{0x41,0x303,0xC3},{0x41,0x308,0xC4},{0x41,0x30A,0xC5},{0x43,0x327,0xC7},{0x45,0x300,0xC8},{0x45,0x301,0xC9},{0x45,0x302,0xCA},{0x45,0x308,0xCB},{0x49,0x300,0xCC},{0x49,0x301,0xCD},{0x49,0x302,0xCE},{0x49,0x308,0xCF},{0x4E,0x303,0xD1},{0x4F,0x300,0xD2},{0x4F,0x301,0xD3},{0x4F,0x302,0xD4},{0x4F,0x303,0xD5},{0x4F,0x308,0xD6},{0x55,0x300,0xD9},{0x55,0x301,0xDA},{0x55,0x302,0xDB},{0x55,0x308,0xDC},{0x59,0x301,0xDD},{0x61,0x300,0xE0},{0x61,0x301,0xE1},{0x61,0x302,0xE2},{0x61,0x303,0xE3},{0x61,0x308,0xE4},{0x61,0x30A,0xE5},{0x63,0x327,0xE7},{0x65,0x300,0xE8},{0x65,0x301,0xE9},{0x65,0x302,0xEA},{0x65,0x308,0xEB},{0x69,0x300,0xEC},{0x69,0x301,0xED},{0x69,0x302,0xEE},{0x69,0x308,0xEF},{0x6E,0x303,0xF1},{0x6F,0x300,0xF2},{0x6F,0x301,0xF3},{0x6F,0x302,0xF4},{0x6F,0x303,0xF5},{0x6F,0x308,0xF6},{0x75,0x300,0xF9},{0x75,0x301,0xFA},{0x75,0x302,0xFB},{0x75,0x308,0xFC},{0x79,0x301,0xFD},{0x79,0x308,0xFF},{0x53,0x30C,0x160},{0x73,0x30C,0x161},{0x5A,0x30C,0x17D},{0x7A,0x30C,0x17E},{0x418,0x306,0x419},{0x438,0x306,0x439},{0x415,0x300,0x400},{0x435,0x300,0x450},{0x415,0x308,0x401},{0x435,0x308,0x451},{0x413,0x301,0x403},{0x433,0x301,0x453},{0x41E,0x308,0x4E6},{0x43E,0x308,0x4E7}};
static std::set<string> bases(VoikkoHandle * h, const wstring & w) {
	std::set<string> r;
	auto ** a = voikkoAnalyzeWordUcs4(h, w.c_str());
	if (!a) return r;
	for (auto ** p = a; *p; p++) { const wchar_t * v = voikko_mor_analysis_value_ucs4(*p, "BASEFORM"); r.insert(v ? utf8(v) : "(none)"); }
	voikko_free_mor_analysis(a);
	return r;
}
static string setText(const std::set<string> & s) { string r; for (auto & x : s) r += x + " "; return r; }
static vector<wstring> suggestions(VoikkoHandle * h, const wstring & w) { wchar_t ** a = voikkoSuggestUcs4(h, w.c_str()); auto r = toVec(a); if (a) voikko_free_suggest_ucs4(a); return r; }
static wstring nearest(wstring s) { for (auto & c : s) if (c == 0x2019) c = L'\''; else if (c == 0x2010 || c == 0x2011) c = L'-'; return s; }
// where word and suggestion agree from their starts, and from their ends, the suggestion is written as the word is
static wstring written(const wstring & word, wstring s) {
	auto like = [](wchar_t w, wchar_t c) { return w == c || nearest(wstring(1, w)) == wstring(1, c); };
	size_t n = std::min(word.size(), s.size()), i = 0, k = 0;
	while (i < n && like(word[i], s[i])) { s[i] = word[i]; i++; }
	while (i + k < n && like(word[word.size() - 1 - k], s[s.size() - 1 - k])) { s[s.size() - 1 - k] = word[word.size() - 1 - k]; k++; }
	return s;
}
int main(int argc, char ** argv) {
	E().init(argc, argv);
	bool small = false; for (int i = 1; i < argc; i++) if (string(argv[i]) == "--small") small = true;
	const bool th = E().thorough;
	// the reference itself against the C library's Unicode tables: every pair it knows is a Unicode case pair (Turkish i apart)
	if (!setlocale(LC_CTYPE, "C.UTF-8")) { fprintf(stderr, "no locale\n"); return 3; }
	for (wchar_t c = 1; c < 0x600; c++) {
		if (ref::lower(c) != c && c != 0x130 && ((wchar_t) towlower(c) != ref::lower(c) || (wchar_t) towupper(ref::lower(c)) != c)) { fprintf(stderr, "reference: U+%X\n", (unsigned) c); return 3; }
		if (ref::lower(c) != c && ref::cls(c) != ref::LETTER) { fprintf(stderr, "reference: U+%X not a letter\n", (unsigned) c); return 3; }
	}
	for (auto & t : COMPOSED) if (ref::normalise(wstring{(wchar_t) t[0], (wchar_t) t[1]}) != wstring(1, (wchar_t) t[2])) { fprintf(stderr, "reference: composition U+%X\n", t[2]); return 3; }
	setlocale(LC_CTYPE, "C");

	// lexicon: a<c>a for every letter c, whatever its case; the base form names the entry that was found
	std::set<wchar_t> letters;
	for (wchar_t c = 0x41; c < 0x530; c++) if (ref::cls(c) == ref::LETTER) letters.insert(c);
	for (wchar_t c : {0x1400, 0x1401, 0x15C3}) letters.insert(c);
	std::set<wchar_t> known = letters; // and signs between the letters, which must not be taken for letters
	for (wchar_t c = 0xA1; c < 0x600; c++) if (c != 0xAD) known.insert(c);
	vector<string> entries;
	for (wchar_t c : known) {
		string s = utf8(wstring(1, c));
		entries.push_back("[Ln][Xp]a" + s + "a[X]a" + s + "a[Sn][Ny]");
	}
	entries.push_back("[Ln][Xp]aba[X]aba[Sn][Ny]");
	string root = scratch("letters");
	api::finnish(root, "l", entries);
	api::finnish(root, "p", entries, api::rules(), "Speller-Backend: AnalyzerToSpellerAdapter(currentAnalyzer)\n");
	{
		Handle l, p, strict; l.open(root, "fi-x-l"); p.open(root, "fi-x-p"); strict.open(root, "fi-x-p");
		voikkoSetBooleanOption(strict, VOIKKO_OPT_ACCEPT_FIRST_UPPERCASE, 0); voikkoSetBooleanOption(strict, VOIKKO_OPT_ACCEPT_ALL_UPPERCASE, 0);
		E().startFamily("every code point: case, classes and equivalents");
		const int block = 64;
		for (int b = 0; b < 0x110000 / block; b++) {
			if (small && b * block > 0x600 && b % 61) continue;
			if (!E().take()) continue;
			for (int i = 0; i < block; i++) {
				wchar_t c = (wchar_t)(b * block + i);
				if (c == 0) continue;
				char name[16]; snprintf(name, sizeof name, "U+%04X", (unsigned) c);
				auto bad = [&](const string & m) { E().fail(name, m); };
				E().desc(name); E().step(8);
				wchar_t lo = ref::lower(c), up = ref::upper(c);
				wstring w = {L'a', c, L'a'};
				std::set<string> want; if (known.count(lo) && !ref::isUpper(lo)) want.insert(utf8(wstring{L'a', lo, L'a'}));
				if (c == 0x18F) want.insert(utf8(w)); // no lower case counterpart
				auto got = bases(l, w);
				if (got != want) bad("lower case: entries found " + setText(got) + "expected " + setText(want));
				E().state(hashStr(setText(got), c));
				if (!letters.count(c)) {
					if (c < 0x20 || (c >= 0xD800 && c < 0xE000)) continue;
					// not a letter the lexicon has: accepted only if it stands for nothing or for a break between accepted words
					size_t n = 0; int k = voikkoNextTokenUcs4(l, w.c_str(), 3, &n);
					ref::Token t = ref::token(w, false);
					if (k != t.type || n != t.len) bad("token of a" + string(name) + "a is " + num(k) + "+" + num((long long) n) + ", expected " + num(t.type) + "+" + num((long long) t.len));
					continue;
				}
				// verdicts tell the class of the letter
				bool iu = ref::isUpper(c), il = ref::isLower(c);
				struct { wstring w; bool ok, strictOk; const char * what; } q[] = {
					{{L'a', c, L'a'}, !iu, !iu, "inside a lower case word"},
					{{L'A', c, L'A'}, !il, false, "inside an upper case word"},
				};
				for (auto & x : q) for (auto * h : {&l, &p, &strict}) {
					bool expect = h == &strict ? x.strictOk : x.ok;
					// the library takes a caseless letter as fitting either case, in a word of upper case letters too
					int v = voikkoSpellUcs4(*h, x.w.c_str());
					if (v != (int) expect) bad(string(x.what) + (h == &strict ? " (case strict)" : "") + ": spelling verdict " + num(v) + ", expected " + num(expect));
				}
				size_t n = 0; int k = voikkoNextTokenUcs4(l, w.c_str(), 3, &n);
				if (k != TOKEN_WORD || n != 3) bad("not a letter in a word: token " + num(k) + "+" + num((long long) n));
				// start of a sentence: the correction shows the upper case counterpart
				wstring t = L"Aba aba. " + wstring{c, L'b', L'a'} + L" aba.";
				string g, expectG;
				for (int skip = 0; skip < 20; skip++) { VoikkoGrammarError * e = voikkoNextGrammarErrorUcs4(l, t.c_str(), t.size(), 0, skip); if (!e) break; if (voikkoGetGrammarErrorCode(e) == 6 || voikkoGetGrammarErrorCode(e) == 7) g += api::error(e, false) + " "; voikkoFreeGrammarError(e); }
				if (!iu) expectG = "7@9+3>" + utf8(wstring{up, L'b', L'a'}) + " ";
				if (g != expectG) bad("at the start of a sentence: " + g + "expected " + expectG);
				// inside a sentence: the correction shows the lower case counterpart (for known words)
				// the entry a<c>a cannot start with c, so known words with an initial c come from the second lexicon below
			}
		}
	}
	{
		// words with an initial c
		vector<string> e2;
		for (wchar_t c : letters) if (!ref::isUpper(c)) { string s = utf8(wstring(1, c)); e2.push_back("[Ln][Xp]" + s + "ba[X]" + s + "ba[Sn][Ny]"); }
		e2.push_back("[Ln][Xp]on[X]on[Sn][Ny]");
		api::finnish(root, "i", e2);
		Handle h, nf; h.open(root, "fi-x-i"); nf.open(root, "fi-x-i"); voikkoSetBooleanOption(nf, VOIKKO_OPT_ACCEPT_FIRST_UPPERCASE, 0);
		E().startFamily("every letter as an initial");
		for (wchar_t c : letters) {
			if (c == 0x18F || !E().take()) continue; // a capital without a counterpart
			wstring w = {c, L'b', L'a'};
			E().desc(show(w)); E().step(6);
			bool iu = ref::isUpper(c); wchar_t lo = ref::lower(c);
			auto bad = [&](const string & m) { E().fail(show(w), m); };
			int v = voikkoSpellUcs4(h, w.c_str()), s = voikkoSpellUcs4(nf, w.c_str());
			if (v != 1) bad("spelling verdict " + num(v));
			if (s != (iu ? 0 : 1)) bad("verdict without accept_first_uppercase " + num(s));
			wstring t = L"On " + w + L" on.";
			string g, want;
			for (int skip = 0; skip < 20; skip++) { VoikkoGrammarError * e = voikkoNextGrammarErrorUcs4(h, t.c_str(), t.size(), 0, skip); if (!e) break; if (voikkoGetGrammarErrorCode(e) == 6 || voikkoGetGrammarErrorCode(e) == 7) g += api::error(e, false) + " "; voikkoFreeGrammarError(e); }
			if (iu) want = "6@3+3>" + utf8(wstring{lo, L'b', L'a'}) + " ";
			if (g != want) bad("inside a sentence: " + g + "expected " + want);
			// suggestions take the case of the word
			if (iu && lo != c) {
				auto r = suggestions(h, wstring{c, L'b', L'a', L'a'});
				if (std::find(r.begin(), r.end(), w) == r.end()) bad("suggestions for a capitalised slip: " + showList(r));
				r = suggestions(h, wstring{c, L'B', L'A', L'A'});
				if (std::find(r.begin(), r.end(), wstring{c, L'B', L'A'}) == r.end()) bad("suggestions for an upper case slip: " + showList(r));
			}
			E().state(hashStr(g, c));
		}
	}
	{
		// every letter with every combining mark
		Handle h; h.open(root, "fi-x-l");
		E().startFamily("every letter and combining mark");
		for (wchar_t c : letters) {
			if (!E().take()) continue;
			for (wchar_t m = 0x300; m < 0x370; m++) {
				wstring w = {L'a', c, m, L'a'}, W = {L'A', c, m, L'A'}, n = ref::normalise(w), N = ref::normalise(W);
				E().desc(show(w)); E().step(4);
				for (auto & x : {std::make_pair(w, n), std::make_pair(W, N)}) {
					int v = voikkoSpellUcs4(h, x.first.c_str()), expect = x.first == x.second ? 0 : voikkoSpellUcs4(h, x.second.c_str());
					if (v != expect) E().fail(show(x.first), "spelling verdict " + num(v) + ", the plain form " + show(x.second) + " has " + num(expect));
				}
				// also where the pair starts or ends the word, and twice in a row
				for (auto & x : {wstring{c, m}, wstring{c, m, L'a'}, wstring{L'a', c, m}, wstring{c, m, m}, wstring{c, c, m}}) {
					wstring y = ref::normalise(x);
					if (y == x) continue;
					int v = voikkoSpellUcs4(h, x.c_str()), expect = voikkoSpellUcs4(h, y.c_str());
					if (v != expect) E().fail(show(x), "spelling verdict " + num(v) + ", the plain form " + show(y) + " has " + num(expect));
					if (suggestions(h, x) != suggestions(h, y)) E().fail(show(x), "suggestions " + showList(suggestions(h, x)) + ", for the plain form " + showList(suggestions(h, y)));
				}
			}
		}
	}
	{
		// all short words of mixed forms; lexicons that tell nearly all plain forms apart
		const vector<wstring> units = {L"f", L"i", L"l", L"a", L"-", L"'", L"\u2019", L"\u2010", L"\u2011", L"\uFB00", L"\uFB01", L"\uFB02", L"\uFB03", L"\uFB04", L"\u2103", L"\u2109", L"\u00B0", L"C", L"F", L"\u0308", L"\u030C", L"A", L"s", L"\u00E4", L"\u0301"};
		const vector<string> plain = {"f", "i", "l", "a", "-", "'", "\u00B0", "c", "s", "\u00E4", "\u0161", "\u00E1"};
		// Finnish: words of two plain units joined by rules; weighted: words with an odd checksum
		vector<string> fin;
		sequences(plain.size(), 1, 4, [&](const vector<size_t> & v) {
			string s; size_t k = 0; bool edge = false;
			for (size_t i = 0; i < v.size(); i++) { s += plain[v[i]]; k = k * 7 + v[i] * 3 + 1; if ((i == 0 || i + 1 == v.size()) && (plain[v[i]] == "-" || plain[v[i]] == "'")) edge = true; }
			if (!edge && k % 3 == 0) fin.push_back("[Ln]" + s + "[Sn][Ny]");
		});
		string r2 = scratch("forms");
		vf::dict(r2, "f", "Language: fi-x-f\nDescription: f\nGrammar-Backend: null\n", {{"mor.vfst", vf::Writer::write(vf::finnishLexicon(fin), false)}});
		vf::Net spl; vector<string> abc = plain; for (auto s : {"C", "F", "A"}) abc.push_back(s);
		for (int i = 0; i < 6; i++) spl.add();
		for (int s = 0; s < 7; s++) { for (size_t i = 0; i < abc.size(); i++) spl.arc(s, abc[i], abc[i], (int)((s * 3 + i + 1) % 7), 1); if (s % 2) spl.fin(s, 0); }
		vf::Net err; for (auto & c : abc) err.arc(0, c, c, 0, 0); err.fin(0, 0);
		vf::dict(r2, "w", "Language: xw\nDescription: w\nMorphology-Backend: null\nSpeller-Backend: vfst\nSuggestion-Backend: vfst\nGrammar-Backend: null\n", {{"spl.vfst", vf::Writer::write(spl, true)}, {"err.vfst", vf::Writer::write(err, true)}});
		Handle f, w, o; f.open(r2, "fi-x-f"); o.open(r2, "fi-x-f"); w.open(r2, "xw");
		voikkoSetBooleanOption(o, VOIKKO_OPT_ACCEPT_EXTRA_HYPHENS, 1); voikkoSetBooleanOption(o, VOIKKO_OPT_ACCEPT_MISSING_HYPHENS, 1); voikkoSetBooleanOption(o, VOIKKO_OPT_IGNORE_DOT, 1); voikkoSetBooleanOption(o, VOIKKO_OPT_IGNORE_NUMBERS, 1); voikkoSetBooleanOption(o, VOIKKO_OPT_IGNORE_NONWORDS, 0);
		long good = 0, all = 0;
		auto one = [&](const wstring & x, bool sug) {
			if (!E().take()) return;
			E().desc(show(x)); wstring y = ref::normalise(x);
			if (ref::normalise(y) != y) return; // a mark after a ligature: no plain form is defined
			struct { VoikkoHandle * h; const char * n; } hs[] = {{f, "Finnish"}, {o, "Finnish with options"}, {w, "weighted"}};
			for (auto & k : hs) {
				E().step(2);
				int a = voikkoSpellUcs4(k.h, x.c_str()), b = voikkoSpellUcs4(k.h, y.c_str());
				if (a != b) E().fail(show(x), string(k.n) + ": spelling verdict " + num(a) + ", the plain form " + show(y) + " has " + num(b));
				all++; good += a == 1; E().state(hashStr(y, (uint64_t) a * 31 + (uint64_t) k.n[0]));
				if (!sug || x.size() < 2) continue;
				E().step(2);
				auto sa = suggestions(k.h, x), sb = suggestions(k.h, y);
				auto nb = sb; for (auto & s : nb) s = written(x, s);
				if (sa != nb) E().fail(show(x), string(k.n) + ": suggestions " + showList(sa) + ", for the plain form " + showList(sb));
			}
		};
		E().startFamily("every word of at most " + num(small ? 2 : th ? 5 : 4) + " of " + num((long long) units.size()) + " forms: verdict");
		strings(units, 1, small ? 2 : th ? 5 : 4, [&](const wstring & x) { one(x, false); });
		E().startFamily("every word of at most " + num(small ? 2 : th ? 4 : 3) + " forms: suggestions");
		strings(units, 1, small ? 2 : th ? 4 : 3, [&](const wstring & x) { one(x, true); });
		E().startFamily("long words of equivalent forms");
		for (auto & u : {L"\uFB03", L"\uFB04", L"\u2103", L"a\u0308", L"\u2019", L"f\uFB00", L"\u2010"}) for (size_t n : {60, 84, 85, 86, 126, 127, 128, 254, 255}) for (int e = 0; e < 2; e++) {
			wstring x; while (x.size() < n) x += u; x.resize(n); if (e) x += L'a';
			if (ref::normalise(x).size() > 255 || x.size() > 255) { if (E().take()) { E().desc(show(x).substr(0, 60) + " x " + num((long long) n)); E().step(2); voikkoSpellUcs4(f, x.c_str()); suggestions(f, x); voikkoSpellUcs4(w, x.c_str()); suggestions(w, x); } }
			else one(x, false);
		}
		if (!E().only && !E().prefix && !small && !E().stop && (good == 0 || good == all)) { fprintf(stderr, "lexicons do not separate words\n"); return 3; }
	}
	{
		// letter case does not change what a word is, nor where it is divided
		string r3 = scratch("case");
		api::finnish(r3, "c");
		Handle h; h.open(r3, "fi-x-c");
		const vector<wstring> words = {L"kissa", L"koira", L"autotie", L"linja-auto", L"matti", L"turku", L"turun", L"suomi", L"eaa", L"juoksee", L"sy\u00F6m\u00E4\u00E4n", L"ei", L"ja", L"2", L"kissoja", L"\u00F6ljy\u00E4", L"straatti", L"\u0161akki", L"esim."};
		E().startFamily("every letter case pattern of known and unknown words");
		for (auto & w : words) {
			size_t n = std::min<size_t>(w.size(), th ? 10 : 8);
			string a = api::analyze(h, w), p = api::hyphens(h, w);
			for (unsigned b = 0; b < 1u << n; b++) {
				if (!E().take()) continue;
				wstring x = w; for (size_t i = 0; i < n; i++) if (b >> i & 1) x[i] = ref::upper(x[i]);
				E().desc(show(x)); E().step(2);
				if (api::analyze(h, x) != a) E().fail(show(x), "analyses " + api::analyze(h, x) + ", of the lower case word " + a);
				if (api::hyphens(h, x) != p) E().fail(show(x), "hyphenation '" + api::hyphens(h, x) + "', of the lower case word '" + p + "'");
				E().state(hashStr(a));
			}
		}
	}
	return E().finish();
}
