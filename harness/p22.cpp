// P22: the interface with handle numbers against the current one, over all short histories.
#include "api.hpp"
#include "mheld.hpp"
using namespace mc;
namespace old {
using api::analyses;
static string list(char ** a) { if (!a) return "null"; string r; for (auto & s : toVec(a)) r += s + "/"; voikko_free_suggest_cstr(a); return r; }
static string suggestC(int h, const string & w) { return list(voikko_suggest_cstr(h, w.c_str())); }
static string suggest(int h, const wstring & w) { wchar_t ** a = voikko_suggest_ucs4(h, w.c_str()); if (!a) return "null"; string r; for (auto & s : toVec(a)) r += utf8(s) + "/"; voikko_free_suggest_ucs4(a); return r; }
static string pat(char * p) { if (!p) return "null"; string r = p; voikko_free_hyphenate(p); return r; }
static string tokens(int h, const wstring & t) { string r; size_t pos = 0; while (pos < t.size()) { size_t n = 0; int k = voikko_next_token_ucs4(h, t.c_str() + pos, t.size() - pos, &n); r += num(k) + "+" + num((long long) n) + " "; if (k == 0 || n == 0) break; pos += n; } return r; }
static string sentences(int h, const wstring & t) { string r; size_t pos = 0; while (pos < t.size()) { size_t n = 0; int k = voikko_next_sentence_start_ucs4(h, t.c_str() + pos, t.size() - pos, &n); r += num(k) + "+" + num((long long) n) + " "; if (k == 0 || n == 0) break; pos += n; } return r; }
static string error(const voikko_grammar_error & e) {
	if (!e.error_code) return e.suggestions || e.startpos || e.errorlen ? "none, but not empty" : "none";
	string r = num(e.error_code) + "@" + num((long long) e.startpos) + "+" + num((long long) e.errorlen);
	if (e.suggestions) { for (auto & s : toVec(e.suggestions)) r += ">" + s; voikko_free_suggest_cstr(e.suggestions); }
	return r + "|" + voikko_error_message_cstr(e.error_code, "en") + (e.error_level || e.error_description ? "!" : "");
}
}
// one string per function, old and current
static vector<std::pair<string, string>> both(int n, VoikkoHandle * h, const wstring & w) {
	vector<std::pair<string, string>> r; string u = utf8(w);
	auto add = [&](const string & a, const string & b) { r.push_back({a, b}); };
	add("spell_ucs4 " + num(voikko_spell_ucs4(n, w.c_str())), "spell_ucs4 " + api::spell(h, w));
	add("spell_cstr " + num(voikko_spell_cstr(n, u.c_str())), "spell_cstr " + num(voikkoSpellCstr(h, u.c_str())));
	add("suggest_ucs4 " + old::suggest(n, w), "suggest_ucs4 " + api::suggest(h, w));
	add("suggest_cstr " + old::suggestC(n, u), "suggest_cstr " + api::suggestC(h, u));
	add("hyphenate_ucs4 " + old::pat(voikko_hyphenate_ucs4(n, w.c_str())), "hyphenate_ucs4 " + api::hyphens(h, w));
	add("hyphenate_cstr " + old::pat(voikko_hyphenate_cstr(n, u.c_str())), "hyphenate_cstr " + api::hyphensC(h, u));
	add("analyze_ucs4 " + api::analyses(voikko_analyze_word_ucs4(n, w.c_str())), "analyze_ucs4 " + api::analyze(h, w));
	add("analyze_cstr " + api::analyses(voikko_analyze_word_cstr(n, u.c_str())), "analyze_cstr " + api::analyzeC(h, u));
	add("tokens " + old::tokens(n, w), "tokens " + api::tokens(h, w));
	add("sentences " + old::sentences(n, w), "sentences " + api::sentences(h, w));
	size_t a = 0, b = 0; int k, l;
	k = voikko_next_token_cstr(n, u.c_str(), u.size(), &a); l = voikkoNextTokenCstr(h, u.c_str(), u.size(), &b);
	add("token_cstr " + num(k) + "+" + num((long long) a), "token_cstr " + num(l) + "+" + num((long long) b));
	a = b = 0; k = voikko_next_sentence_start_cstr(n, u.c_str(), u.size(), &a); l = voikkoNextSentenceStartCstr(h, u.c_str(), u.size(), &b);
	add("sentence_cstr " + num(k) + "+" + num((long long) a), "sentence_cstr " + num(l) + "+" + num((long long) b));
	for (int skip = 0; skip < 40; skip++) {
		string x = old::error(voikko_next_grammar_error_ucs4(n, w.c_str(), w.size(), 0, skip)), y = api::grammarAt(h, w.c_str(), w.size(), 0, skip);
		add("grammar_ucs4 " + x, "grammar_ucs4 " + y);
		VoikkoGrammarError * e = voikkoNextGrammarErrorCstr(h, u.c_str(), u.size(), 0, skip); string z = api::error(e); if (e) voikkoFreeGrammarError(e);
		add("grammar_cstr " + old::error(voikko_next_grammar_error_cstr(n, u.c_str(), u.size(), 0, skip)), "grammar_cstr " + z);
		if (x == "none" && y == "none") break;
	}
	for (size_t start : {1, 3}) if (start < w.size()) add("grammar_ucs4 from " + old::error(voikko_next_grammar_error_ucs4(n, w.c_str(), w.size(), start, 0)), "grammar_ucs4 from " + api::grammarAt(h, w.c_str(), w.size(), start, 0));
	return r;
}
static bool compare(int n, VoikkoHandle * h, const wstring & w, const string & d) {
	for (auto & p : both(n, h, w)) { E().step(); if (p.first != p.second) { E().fail(d, "number " + num(n) + ", " + show(w) + ": " + p.first + ", current interface: " + p.second); return false; } quietly([&] { E().state(hashStr(p.first)); }); }
	return true;
}
int main(int argc, char ** argv) {
	E().init(argc, argv);
	bool small = false; for (int i = 1; i < argc; i++) if (string(argv[i]) == "--small") small = true;
	const bool th = E().thorough;
	string home = scratch("home"), root = scratch("root");
	setenv("HOME", home.c_str(), 1);
	api::finnish(root, "a"); api::finnish(root, "standard", {"[Ln][Xp]kissa[X]kissa[Sn][Ny]"});
	{ auto w = api::finnishWords(); w.resize(3); api::finnish(root, "pitkaniminen", w); }
	// the second of these has a tag split at eight characters
	{ string d = root + "/5/mor-pitkaniminen/index.txt"; writeFile(d, "Voikko-Dictionary-Format: 5\nLanguage: fi-x-pitkanim-inen\nDescription: pitk\xc3\xa4\nGrammar-Backend: finnishVfst\n"); }
	const vector<const char *> langs = {"", "default", "fi_FI", "a", "standard", "pitkaniminen", "olematon", nullptr};
	const vector<string> tags = {"fi", "fi", "fi", "fi-x-a", "fi-x-standard", "fi-x-pitkanim-inen", "fi-x-olematon", ""};
	auto cur = [&](int l, const char * path, string & err) -> VoikkoHandle * { if (!langs[l]) { err = "?"; return nullptr; } const char * e = nullptr; VoikkoHandle * h = voikkoInit(&e, tags[l].c_str(), path); err = e ? e : ""; return h; };
	// warm-up
	{ int n = 0; voikko_init_with_path(&n, "a", 0, root.c_str()); string e; VoikkoHandle * h = cur(3, root.c_str(), e); if (n && h) both(n, h, L"Kissa sy\u00F6 joten kuten ."); if (n) voikko_terminate(n); if (h) voikkoTerminate(h); }

	const vector<wstring> texts = {L"kissa", L"Kissa", L"kisssa", L"linja-auto", L"kissa.", L"Kissa sy\u00F6 .", L"Kissa joten kuten sy\u00F6  koira", L"turku", L"", L"xyzzy", L"a1", L"KISSA", L"\U0001F600", L"ei ei"};
	// ---- histories
	struct Op { int kind, arg; string name; };
	vector<Op> ops;
	for (int l : {0, 3, 5, 6, 7}) ops.push_back({0, l, string("open ") + (langs[l] ? langs[l] : "(null)")});
	for (int n : {-1, 0, 1, 2, 3, 4, 5, 1000000}) ops.push_back({1, n, "close " + num(n)});
	for (int n : {1, 2, 4}) ops.push_back({2, n, "option " + num(n)});
	ops.push_back({3, 0, "ask all"});
	const size_t depth = small ? 3 : th ? 6 : 4;
	E().startFamily("every history of at most " + num((long long) depth) + " of " + num((long long) ops.size()) + " operations");
	auto history = [&](const vector<size_t> & v) {
		if (!E().take()) return;
		string d; for (size_t i : v) d += (d.empty() ? "" : "; ") + ops[i].name;
		E().desc(d);
		Held before = held();
		std::map<int, VoikkoHandle *> m; // open numbers
		bool bad = false;
		for (size_t i : v) {
			if (bad) break;
			auto & o = ops[i]; E().step();
			if (o.kind == 0) {
				int n = 77; const char * e = voikko_init_with_path(&n, langs[o.arg], 0, root.c_str());
				string want; VoikkoHandle * h = m.size() == 4 ? nullptr : cur(o.arg, root.c_str(), want);
				if (m.size() == 4) { if (!e || !*e) { E().fail(d, "a fifth handle could be opened"); bad = true; } }
				else if (h) { if (e) { E().fail(d, string("cannot open: ") + e); bad = true; voikkoTerminate(h); } else if (n < 1 || n > 4 || m.count(n)) { E().fail(d, "number " + num(n) + " given to a new handle"); bad = true; voikkoTerminate(h); } else m[n] = h; }
				else { if (!e || !*e) { E().fail(d, "no error for a language that cannot be opened"); bad = true; } else if (langs[o.arg] && want != e) { E().fail(d, string("error '") + e + "', current interface '" + want + "'"); bad = true; } }
			}
			else if (o.kind == 1) {
				int r = voikko_terminate(o.arg);
				if (r != (int) m.count(o.arg)) { E().fail(d, "closing " + num(o.arg) + " gives " + num(r)); bad = true; }
				if (m.count(o.arg)) { voikkoTerminate(m[o.arg]); m.erase(o.arg); }
			}
			else if (o.kind == 2) { if (m.count(o.arg)) {
				int a = voikko_set_bool_option(o.arg, VOIKKO_OPT_IGNORE_DOT, 1), b = voikkoSetBooleanOption(m[o.arg], VOIKKO_OPT_IGNORE_DOT, 1), c = voikko_set_int_option(o.arg, VOIKKO_MIN_HYPHENATED_WORD_LENGTH, 6), e = voikkoSetIntegerOption(m[o.arg], VOIKKO_MIN_HYPHENATED_WORD_LENGTH, 6);
				if (a != b || c != e) { E().fail(d, "setting options gives " + num(a) + " and " + num(c)); bad = true; }
			} }
			else for (auto & p : m) for (size_t t : {0, 2, 4, 6}) if (!bad && !compare(p.first, p.second, texts[t], d)) bad = true;
		}
		for (auto & p : m) { if (!bad) compare(p.first, p.second, L"kissa.", d); }
		for (auto & p : m) { if (voikko_terminate(p.first) != 1 && !bad) E().fail(d, "closing " + num(p.first) + " fails"); voikkoTerminate(p.second); }
		m.clear();
		// an opening that fails first may leave the table of numbers for later use; opening and closing once more gives it back
		int n = 0; if (!bad && voikko_init_with_path(&n, "standard", 0, root.c_str()) == nullptr && n == 1) voikko_terminate(n); else if (!bad) E().fail(d, "cannot open a handle after all were closed");
		Held after = held();
		if (!bad && after != before) E().fail(d, more(before, after));
	};
	sequences(ops.size(), 1, depth, history);
	// longer histories of opening and closing only
	const size_t deep = small ? 5 : th ? 9 : 7;
	E().startFamily("every history of at most " + num((long long) deep) + " openings and closings");
	vector<size_t> sel; for (size_t i = 0; i < ops.size(); i++) if (ops[i].name == "open a" || ops[i].name == "close 1" || ops[i].name == "close 2" || ops[i].name == "close 4") sel.push_back(i);
	sequences(sel.size(), 5, deep, [&](const vector<size_t> & v) { vector<size_t> w; for (size_t i : v) w.push_back(sel[i]); history(w); });

	// ---- answers and options
	struct S { int kind, opt, val; };
	vector<S> set; for (int o = -1; o < 20; o++) { set.push_back({0, o, 0}); set.push_back({0, o, 1}); for (int v : {-1, 0, 1, 5}) set.push_back({1, o, v}); }
	E().startFamily("every option and value, every function");
	for (auto & s : set) {
		if (!E().take()) continue;
		string d = string(s.kind ? "integer" : "boolean") + " option " + num(s.opt) + " = " + num(s.val); E().desc(d);
		int n = 0; string e; Held before = held(); VoikkoHandle * h = cur(3, root.c_str(), e);
		if (voikko_init_with_path(&n, "a", 0, root.c_str()) || !h) { E().fail(d, "cannot open"); continue; }
		int a = s.kind ? voikko_set_int_option(n, s.opt, s.val) : voikko_set_bool_option(n, s.opt, s.val);
		int b = s.kind ? (s.opt == 5 ? 1 : voikkoSetIntegerOption(h, s.opt, s.val)) : voikkoSetBooleanOption(h, s.opt, s.val);
		if (a != b) E().fail(d, "returns " + num(a) + ", current interface " + num(b));
		for (auto & t : texts) if (!compare(n, h, t, d)) break;
		voikko_terminate(n); voikkoTerminate(h);
		if (held() != before) E().fail(d, more(before, held()));
	}
	for (int o = -1; o < 20; o++) for (const char * v : {"UTF-8", "ISO-8859-1", "", (const char *) nullptr}) {
		if (!E().take()) continue;
		string d = "string option " + num(o) + " = " + (v ? v : "(null)"); E().desc(d); E().step();
		int n = 0; voikko_init_with_path(&n, "a", 0, root.c_str());
		int a = voikko_set_string_option(n, o, v), b = o == 2 && v && string(v) == "UTF-8";
		if (a != b) E().fail(d, "returns " + num(a) + ", expected " + num(b));
		voikko_terminate(n);
	}
	E().startFamily("cache sizes at opening");
	for (int c : {-1, 0, 1, 4}) for (int l = 0; l < 6; l++) {
		if (!E().take()) continue;
		string d = string("open ") + langs[l] + " cache " + num(c); E().desc(d);
		Held before = held(); int n = 0; string e; VoikkoHandle * h = cur(l, root.c_str(), e); if (h) voikkoSetIntegerOption(h, VOIKKO_SPELLER_CACHE_SIZE, c);
		if (voikko_init_with_path(&n, langs[l], c, root.c_str()) || !h) { E().fail(d, "cannot open"); continue; }
		Held open = held(); (void) open;
		for (auto & t : texts) if (!compare(n, h, t, d)) break;
		voikko_terminate(n); voikkoTerminate(h);
		if (held() != before) E().fail(d, more(before, held()));
	}
	const vector<wstring> abc = {L"k", L"i", L"s", L"a", L".", L"-", L" ", L"\u00E4", L"A", L"\n", L"\U0001F600", L"1"};
	E().startFamily("every text of at most " + num(small ? 2 : th ? 4 : 3) + " of " + num((long long) abc.size()) + " characters, every function");
	{
		int n = 0; string e; VoikkoHandle * h = cur(3, root.c_str(), e); if (voikko_init_with_path(&n, "a", 0, root.c_str()) || !h) { fprintf(stderr, "cannot open\n"); return 3; }
		Held at = held(); bool first = true;
		strings(abc, 0, small ? 2 : th ? 4 : 3, [&](const wstring & w) { if (E().take()) { E().desc(show(w)); compare(n, h, w, show(w)); } });
		E().startFamily("lengths");
		for (auto & u : {L"a", L"\u00E4", L"\U0001F600", L"kissa "}) for (size_t k : {250, 253, 254, 255, 256, 257, 300, 1000, 5000}) { if (!E().take()) continue; wstring w; while (w.size() < k) w += u; w.resize(k); string d = show(wstring(u)) + " x " + num((long long) k); E().desc(d); compare(n, h, w, d); }
		E().startFamily("byte strings that are not UTF-8");
		for (const char * b : {"\x80", "k\xc3", "\xff" "aa", "kissa\xe2\x82", "\xc0\x80", "\xed\xa0\x80", "a\xf8\x88\x80\x80\x80"}) {
			if (!E().take()) continue;
			string d = show(string(b)); E().desc(d); E().step(6); size_t x = 0, y = 0; string s = b;
			if (voikko_spell_cstr(n, b) != voikkoSpellCstr(h, b)) E().fail(d, "spelling");
			if (old::suggestC(n, s) != api::suggestC(h, s)) E().fail(d, "suggestions");
			if (old::pat(voikko_hyphenate_cstr(n, b)) != api::hyphensC(h, s)) E().fail(d, "hyphenation");
			if (api::analyses(voikko_analyze_word_cstr(n, b)) != api::analyzeC(h, s)) E().fail(d, "analysis");
			if (voikko_next_token_cstr(n, b, s.size(), &x) != voikkoNextTokenCstr(h, b, s.size(), &y) || x != y) E().fail(d, "token");
			if (voikko_next_sentence_start_cstr(n, b, s.size(), &x) != voikkoNextSentenceStartCstr(h, b, s.size(), &y) || x != y) E().fail(d, "sentence");
			VoikkoGrammarError * g = voikkoNextGrammarErrorCstr(h, b, s.size(), 0, 0);
			if (old::error(voikko_next_grammar_error_cstr(n, b, s.size(), 0, 0)) != api::error(g)) E().fail(d, "grammar");
			if (g) voikkoFreeGrammarError(g);
		}
		(void) at; (void) first;
		voikko_terminate(n); voikkoTerminate(h);
	}
	E().startFamily("default path");
	for (size_t l = 0; l < langs.size(); l++) {
		if (!langs[l] || !E().take()) continue;
		string d = string("voikko_init ") + langs[l]; E().desc(d); E().step();
		mkdirs(home + "/.voikko"); std::error_code ec; std::filesystem::copy(root + "/5", home + "/.voikko/5", std::filesystem::copy_options::recursive | std::filesystem::copy_options::overwrite_existing, ec);
		int n = 9; string want; VoikkoHandle * h = cur((int) l, nullptr, want); const char * e = voikko_init(&n, langs[l], 0);
		if (!h != !!e || (e && want != e) || (!e && n != 1) || (e && n != 0)) E().fail(d, string("error ") + (e ? e : "(none)") + " number " + num(n) + ", current interface " + want);
		else if (h) for (auto & t : texts) if (!compare(n, h, t, d)) break;
		if (h) voikkoTerminate(h);
		if (!e) voikko_terminate(n);
	}
	E().startFamily("error messages");
	for (const char * lang : {"fi", "en", "fi_FI", "en_US", "xx", ""}) for (int c = -1; c < 25; c++) {
		if (!E().take()) continue;
		string d = string("message ") + num(c) + " " + lang; E().desc(d); E().step();
		const char * m = voikko_error_message_cstr(c, lang);
		if (c >= 1 && c <= 18 && (!m || !*m)) E().fail(d, "no message"); else if (m) E().state(hashStr(string(m)));
	}
	return E().finish();
}
