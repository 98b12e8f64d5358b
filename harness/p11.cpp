// P11: the errors of every text are those the rules describe.
#include <memory>
#include "api.hpp"
#include "ref_grammar.hpp"
using namespace mc;
static gr::Lexicon lex;
static VoikkoHandle * H[8];
static std::set<int> seen;
static vector<gr::Error> library(VoikkoHandle * h, const wstring & t) {
	vector<gr::Error> r;
	for (int skip = 0; skip < 3000; skip++) {
		VoikkoGrammarError * e = voikkoNextGrammarErrorUcs4(h, t.c_str(), t.size(), 0, skip);
		E().step();
		if (!e) break;
		gr::Error x{voikkoGetGrammarErrorCode(e), voikkoGetGrammarErrorStartPos(e), voikkoGetGrammarErrorLength(e), {}};
		if (const char ** s = voikkoGetGrammarErrorSuggestions(e)) for (; *s; s++) x.fix.push_back(fi::widen(*s));
		voikkoFreeGrammarError(e);
		r.push_back(x);
	}
	return r;
}
static void check(const wstring & t, unsigned masks) {
	for (unsigned m = 0; m < 8; m++) if (masks >> m & 1) {
		auto want = gr::check(lex, t, gr::Options::bits(m)), got = library(H[m], t);
		string a = gr::showErrors(want), b = gr::showErrors(got);
		uint64_t sig = m; for (auto & e : got) { seen.insert(e.code); sig = sig * 37 + e.code; }
		E().state(sig);
		if (a != b) E().fail((t.size() > 400 ? show(t.substr(0, 100)) + "..." + show(t.substr(t.size() - 100)) + num((long long) t.size()) : show(t)) + (m & 1 ? " titles" : "") + (m & 2 ? " unfinished" : "") + (m & 4 ? " bullets" : ""), "expected " + a + ", got " + b);
	}
}
static unsigned masks = 0xff;
static void one(const wstring & t) { if (E().take()) { E().desc(show(t)); check(t, masks); } }
// alternating words and separators
static void alternate(const vector<wstring> & words, const vector<wstring> & seps, size_t n, const vector<wstring> & heads, const vector<wstring> & tails) {
	for (size_t k = 1; k <= n; k++) for (auto & head : heads) for (auto & tail : tails) {
		vector<size_t> v(2 * k - 1, 0);
		for (;;) {
			wstring t = head; for (size_t i = 0; i < v.size(); i++) t += i % 2 ? seps[v[i]] : words[v[i]];
			one(t + tail);
			size_t i = v.size(); while (i > 0 && ++v[i - 1] == ((i - 1) % 2 ? seps.size() : words.size())) { v[i - 1] = 0; i--; }
			if (i == 0) break;
		}
	}
}
int main(int argc, char ** argv) {
	E().init(argc, argv);
	bool small = false;
	for (int i = 1; i < argc; i++) if (!strcmp(argv[i], "--small")) small = true;
	bool T = E().thorough;
	auto words = api::finnishWords();
	for (auto e : {"[Lt][Xp]lukea[X]lukisi[Te][Ap][P3][Ny][Eb]", "[Lt][Xp]lukea[X]lue[Tt][Ap][P3][Ny][Et]", "[Lt][Xp]lukea[X]lukisin[Te][Ap][P1][Ny][Ef]", "[Lk][Xp]ei[X]eik\u00e4[P3][Ny]", "[Lc][Xp]kun[X]kun", "[Lt][Xp]kutea[X]kun[Tt][Ap][P1][Ny][Ef]",
		"[Lt][Xp]sy\u00f6d\u00e4[X]sy\u00f6m\u00e4tt\u00e4[Tn3][Ny][Sab]", "[Ll][Xp]sy\u00f6m\u00e4[X]sy\u00f6m\u00e4tt\u00e4[Rm][Ny][Sab]", "[Ls][Xp]siin\u00e4[X]siin\u00e4", "[Ls][Xp]miss\u00e4[X]miss\u00e4", "[Lt][Xp]k\u00e4yd\u00e4[X]k\u00e4vi[Tt][Ai][P3][Ny][Ef]", "[Ls][Xp]miten[X]miten",
		"[Lt][Irm][Xp]menn\u00e4[X]menee[Tt][Ap][P3][Ny][Ef]", "[Lt][Xp]menn\u00e4[X]menee[Tt][Ap][P3][Ny][Ef]", "[Lt][Ira][Xp]aikoa[X]aikoo[Tt][Ap][P3][Ny][Ef]", "[Lt][Irm][Xp]aikoa[X]aikoo[Tt][Ap][P3][Ny][Ef]", "[Lt][Xp]olla[X]ollut[Ru][Ny][Sn]", "[Xp]outo[X]outo",
		"[Lt][Xp]sy\u00f6d\u00e4[X]sy\u00f6dess\u00e4[Tn2][Ny][Sine]", "[Lt][Xp]sy\u00f6d\u00e4[X]sy\u00f6k\u00f6\u00f6n[Tk][P3][Ny][Ef]", "[Lep][Xp]kissa[X]kissan[Sg][Ny]", "[Ln][Xp]kissa[X]kissan[Sg][Ny]"}) words.push_back(e);
	string root = scratch("p11");
	api::finnish(root, "gr", words);
	for (auto & w : words) lex.add(w);
	for (auto & r : api::rules()) lex.rules.push_back({fi::widen(r.first), fi::widen(r.second)});
	vector<std::unique_ptr<Handle>> hs;
	for (unsigned m = 0; m < 8; m++) {
		hs.emplace_back(new Handle(root)); H[m] = *hs.back();
		voikkoSetBooleanOption(H[m], VOIKKO_OPT_ACCEPT_TITLES_IN_GC, m & 1); voikkoSetBooleanOption(H[m], VOIKKO_OPT_ACCEPT_UNFINISHED_PARAGRAPHS_IN_GC, !!(m & 2)); voikkoSetBooleanOption(H[m], VOIKKO_OPT_ACCEPT_BULLETED_LISTS_IN_GC, !!(m & 4));
		if (m & 1) voikkoSetBooleanOption(H[m], VOIKKO_OPT_IGNORE_DOT, 1); // must not matter
	}
	auto n = [&](size_t s, size_t q, size_t t) { return small ? s : T ? t : q; };
	const vector<wstring> NO = {L""};

	E().startFamily("punctuation");
	masks = 0xff;
	strings({L"kissa", L"Kissa", L" ", L"  ", L",", L".", L"[", L"]", L"2", L"\"", L"\u201C", L"-", L"(", L")", L"!", L"\t", L"...", L"\u2026", L":", L"\u20ac"}, 0, n(2, 3, 4), one);
	E().startFamily("punctuation in context");
	masks = 0x15;
	strings({L"kissa", L" ", L"  ", L",", L".", L"[", L"]", L"\"", L"\u201C", L"?", L"\u201D", L"\u00bb"}, 1, n(2, 4, 5), [&](const wstring & s) { one(L"Kissa" + s + L"juoksee."); });
	E().startFamily("sentence starts");
	strings({L"\"", L",", L" ", L"(", L"'", L"-", L"\u2013", L"]", L"!", L";", L"kissa", L"Koira"}, 1, n(2, 3, 4), [&](const wstring & s) { one(L"Koira syö. " + s + L" juoksee."); one(s + L" juoksee."); });
	E().startFamily("quotations");
	masks = 0x11;
	strings({L"\"", L"\u201D", L"\u00bb", L",", L".", L"!", L"?", L" ", L"Kissa", L"juoksee"}, 1, n(3, 5, 6), [&](const wstring & s) { one(L"\"Kissa juoksee" + s); });
	E().startFamily("repetition");
	masks = 1;
	alternate({L"kissa", L"Kissa", L"KISSA", L"ollut", L"Ollut", L"olleet", L"sillä", L"2", L"2kissa", L"koira", L"kis\u00adsa", L"a", L"Ö", L"ö"}, {L" ", L"  ", L"-", L", ", L"\n"}, n(2, 3, 4), {L""}, {L"", L"."});

	E().startFamily("capitals");
	masks = 0x31;
	alternate({L"Kissa", L"kissa", L"KISSA", L"Turun", L"turku", L"a", L"2", L"Suomi", L"A-koira", L"xyz", L"1.2"}, {L" ", L". ", L" \"", L"\" ", L" (", L") ", L"\t", L": ", L", ", L"! ", L"? ", L" - ", L"... ", L".", L"\u2026 "}, n(2, 3, 3), NO, {L"", L" koira.", L".", L")"});
	E().startFamily("capitals with heads");
	masks = 0x83;
	alternate({L"Kissa", L"kissa", L"KISSA", L"1.2", L"iv", L"Kissan", L"A2"}, {L" ", L". ", L" \"", L".\" ", L" (", L") ", L"\t", L", "}, n(2, 3, 3), {L"\"", L"(", L"- ", L"-", L"1 ", L"1) ", L"a) ", L"A. ", L"[", L"\u2022 ", L"\u201C"}, {L" koira.", L"\"", L""});
	E().startFamily("capitals over sentences");
	masks = 1;
	alternate({L"Kissa syö", L"kissa syö", L"KISSA", L"2", L"Matti", L"xi"}, {L". ", L" \"", L"\" ", L".\" ", L" (", L") ", L"! ", L", ", L": "}, n(2, 4, 4), NO, {L" koira.", L"?"});
	if (T) { E().startFamily("capitals long"); alternate({L"Kissa", L"kissa", L"KISSA", L"1"}, {L" ", L". ", L" \"", L"\" ", L" (", L") "}, 5, NO, {L" koira."}); }

	E().startFamily("verbs");
	masks = 0x11;
	vector<wstring> V = {L"juoksee", L"syö", L"syömään", L"syödä", L"rupeaa", L"voi", L"ei", L"eikä", L"ja", L"vaan", L"kissa", L"tuntematon", L"lukisi", L"lue", L"lukisin", L"kun", L"syömättä", L"menee", L"aikoo", L"ollut", L"outo", L"syödessä", L"syököön", L"2"};
	alternate(V, {L" ", L", ", L"  ", L" - "}, n(2, 3, 3), NO, {L".", L"?", L"", L"!", L" .", L"...", L". "});
	E().startFamily("verbs in clauses");
	masks = 1;
	alternate({L"Juoksee", L"syö", L"menee", L"ei", L"ja", L"kissa", L"siinä", L"missä", L"kävi", L"miten"}, {L" ", L", "}, n(2, 4, 5), NO, {L".", L" ja."});
	E().startFamily("verbs in lists");
	masks = 0xff;
	alternate({L"kissa", L"Kissa", L"Matti", L"2", L"juoksee", L"ja"}, {L" ", L"\t", L". "}, n(2, 3, 4), {L"", L"- ", L"\u2022 ", L" ", L"\""}, {L".", L"?", L""});

	E().startFamily("phrases");
	masks = 1;
	strings({L"joten", L"kuten", L"kisaa", L"Kisaa", L" ", L"  ", L"vai", L"ko", L"\u00ad", L".", L"Joten"}, 1, n(3, 5, 6), one);
	E().startFamily("phrases after sentences");
	alternate({L"joten", L"kuten", L"ki\u00adsaa", L"Kisaa", L"vai", L"ko", L"kon", L"Vai", L"että", L"n"}, {L" ", L"  ", L". ", L"-"}, n(2, 3, 4), {L"", L"Kissa  syö. ", L"Kissa syö nyt. ", L"Kis\u00adsa  ", L"\""}, {L".", L"", L"!"});

	E().startFamily("every character");
	masks = 1;
	for (wchar_t c = 1; c <= (small ? 0x250 : 0x2100); c++) for (auto & x : vector<std::pair<wstring, wstring>>{{L"", L"issa juoksee."}, {L"Kissa ", L" juoksee."}, {L"Kissa ", L"oira syö."}, {L"Kissa juoksee", L""}, {L"Kissa syö. ", L" Koira"}, {L"Kissa syö", L" koira."}, {L"Kissa\u2028", L"a."}}) one(x.first + wstring(1, c) + x.second);
	E().startFamily("limits");
	for (int k = 240; k <= 260; k++) { wstring t; for (int i = 0; i < k; i++) t += L"a "; one(t + L"a."); one(t + L".  Aa ,"); one(L"Kissa syö. " + t + L"syö."); }
	for (int k = 195; k <= 205; k++) { wstring t; for (int i = 0; i < k; i++) t += L"kissa. "; one(t); one(t + L"kissa"); one(t + L"Kissa  syö."); }
	for (size_t k : {5000u, 19000u}) { wstring w(k, L'a'); one(w + L" kisaa."); one(L"Kisaa " + w + L"."); one(w); }
	// beyond 20000 characters the phrase rules may be left out; only that the call works is looked at
	for (size_t k = 19985; k <= 20010; k++) for (auto & x : vector<std::pair<wstring, wstring>>{{L"", L" kisaa."}, {L"Kisaa ", L"."}, {L"", L""}, {L"Kisaa  ", L" kisaa"}}) if (E().take()) { wstring w(k, L'a'); E().desc(show(x.first) + num((long long) k) + "*a" + show(x.second)); library(H[0], x.first + w + x.second); }

	E().startFamily("descriptions");
	if (E().take()) {
		E().desc("descriptions of every error code");
		std::set<string> texts;
		for (int code = 1; code <= 18; code++) for (auto l : {"fi", "en"}) {
			const char * d = voikko_error_message_cstr(code, l);
			if (!d || !*d || !strcmp(d, voikko_error_message_cstr(9999, l)) || !texts.insert(d).second) E().fail("error code " + num(code), string("no description of its own in ") + l + ": " + (d ? d : "null"));
			for (auto same : {string(l) + "_FI", string(l) + "-FI"}) if (string(voikko_error_message_cstr(code, same.c_str())) != d) E().fail("error code " + num(code), "language " + same + " differs from " + l);
		}
	}
	for (auto & t : vector<wstring>{L"Kissa  syö", L"kissa syö , ja.", L"Kisaa ei juoksee.", L"Kissa,, \u201Ckoira koira\u201D) syö syö.", L"! Kissa Koira talo. rupeaa syödä", L"\"Kissa.\", voi syömään.", L"Kissa koira talo."}) if (E().take()) { // the text of an error is that of its code
		E().desc(show(t));
		for (int skip = 0; skip < 50; skip++) {
			VoikkoGrammarError * e = voikkoNextGrammarErrorUcs4(H[0], t.c_str(), t.size(), 0, skip);
			if (!e) break;
			for (auto l : {"fi", "en", "fi_FI", "de"}) {
				char * d = (char *) voikkoGetGrammarErrorShortDescription(e, l);
				if (string(d) != voikko_error_message_cstr(voikkoGetGrammarErrorCode(e), l)) E().fail(show(t), "description in " + string(l) + " is " + d);
				voikkoFreeErrorMessageCstr(d);
			}
			voikkoFreeGrammarError(e);
		}
	}
	return E().finish();
}
