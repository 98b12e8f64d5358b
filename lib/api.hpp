// Every query of the C interface rendered as one string, and the scratch dictionaries the stateful checks use.
#ifndef API_HPP
#define API_HPP
#include "common.hpp"
#include "zhfst.hpp"
namespace api {
using mc::num; using mc::show; using mc::utf8;
inline string tokens(VoikkoHandle * h, const wstring & t) {
	string r; size_t pos = 0;
	while (pos < t.size()) { size_t n = 0; int k = voikkoNextTokenUcs4(h, t.c_str() + pos, t.size() - pos, &n); r += num(k) + "+" + num((long long) n) + " "; if (k == 0 || n == 0) break; pos += n; }
	return r;
}
inline string tokensC(VoikkoHandle * h, const string & t) {
	string r; size_t pos = 0;
	for (int guard = 0; pos < t.size() && guard < 5000; guard++) {
		size_t n = 0; int k = voikkoNextTokenCstr(h, t.c_str() + pos, t.size() - pos, &n); r += num(k) + "+" + num((long long) n) + " "; if (k == 0 || n == 0) break;
		for (; n && pos < t.size(); n--) { pos++; while (pos < t.size() && (t[pos] & 0xC0) == 0x80) pos++; }
	}
	return r;
}
inline string sentences(VoikkoHandle * h, const wstring & t) {
	string r; size_t pos = 0;
	while (pos < t.size()) { size_t n = 0; int k = voikkoNextSentenceStartUcs4(h, t.c_str() + pos, t.size() - pos, &n); r += num(k) + "+" + num((long long) n) + " "; if (k == 0 || n == 0) break; pos += n; }
	return r;
}
inline string sentencesC(VoikkoHandle * h, const string & t) {
	string r; size_t pos = 0;
	for (int guard = 0; pos < t.size() && guard < 5000; guard++) {
		size_t n = 0; int k = voikkoNextSentenceStartCstr(h, t.c_str() + pos, t.size() - pos, &n); r += num(k) + "+" + num((long long) n) + " "; if (k == 0 || n == 0) break;
		for (; n && pos < t.size(); n--) { pos++; while (pos < t.size() && (t[pos] & 0xC0) == 0x80) pos++; }
	}
	return r;
}
inline string error(VoikkoGrammarError * e, bool text = true) {
	if (!e) return "none";
	string r = num(voikkoGetGrammarErrorCode(e)) + "@" + num((long long) voikkoGetGrammarErrorStartPos(e)) + "+" + num((long long) voikkoGetGrammarErrorLength(e));
	const char ** s = voikkoGetGrammarErrorSuggestions(e);
	if (s) for (; *s; s++) r += string(">") + *s;
	if (text) { char * d = (char *) voikkoGetGrammarErrorShortDescription(e, "en"); r += string("|") + d; voikkoFreeErrorMessageCstr(d); }
	return r;
}
inline string grammarAt(VoikkoHandle * h, const wchar_t * t, size_t n, size_t start, int skip) { VoikkoGrammarError * e = voikkoNextGrammarErrorUcs4(h, t, n, start, skip); string r = error(e); if (e) voikkoFreeGrammarError(e); return r; }
inline string grammar(VoikkoHandle * h, const wstring & t) {
	string r;
	for (int skip = 0; skip < 3000; skip++) { string e = grammarAt(h, t.c_str(), t.size(), 0, skip); if (e == "none") break; r += e + " "; }
	return r;
}
inline string grammarC(VoikkoHandle * h, const string & t) {
	string r;
	for (int skip = 0; skip < 3000; skip++) { VoikkoGrammarError * e = voikkoNextGrammarErrorCstr(h, t.c_str(), t.size(), 0, skip); if (!e) break; r += error(e) + " "; voikkoFreeGrammarError(e); }
	return r;
}
inline string spell(VoikkoHandle * h, const wstring & w) { return num(voikkoSpellUcs4(h, w.c_str())); }
inline string suggest(VoikkoHandle * h, const wstring & w) { wchar_t ** a = voikkoSuggestUcs4(h, w.c_str()); if (!a) return "null"; string r; for (auto & s : toVec(a)) r += utf8(s) + "/"; voikko_free_suggest_ucs4(a); return r; }
inline string suggestC(VoikkoHandle * h, const string & w) { char ** a = voikkoSuggestCstr(h, w.c_str()); if (!a) return "null"; string r; for (auto & s : toVec(a)) r += s + "/"; voikkoFreeCstrArray(a); return r; }
inline string hyphens(VoikkoHandle * h, const wstring & w) { char * p = voikkoHyphenateUcs4(h, w.c_str()); if (!p) return "null"; string r = p; voikkoFreeCstr(p); return r; }
inline string hyphensC(VoikkoHandle * h, const string & w) { char * p = voikkoHyphenateCstr(h, w.c_str()); if (!p) return "null"; string r = p; voikkoFreeCstr(p); return r; }
inline string insert(VoikkoHandle * h, const string & w, const char * sep, int ctx) { char * p = voikkoInsertHyphensCstr(h, w.c_str(), sep, ctx); if (!p) return "null"; string r = p; voikkoFreeCstr(p); return r; }
inline string analyses(voikko_mor_analysis ** a) {
	if (!a) return "null";
	string r;
	for (auto ** p = a; *p; p++) {
		std::set<string> kv;
		if (const char ** k = voikko_mor_analysis_keys(*p)) for (; *k; k++) {
			const wchar_t * v = voikko_mor_analysis_value_ucs4(*p, *k);
			char * c = voikko_mor_analysis_value_cstr(*p, *k);
			kv.insert(string(*k) + "=" + (v ? utf8(v) : "(null)") + (c && v && utf8(v) == c ? "" : "!"));
			if (c) voikko_free_mor_analysis_value_cstr(c);
		}
		for (auto & s : kv) r += s + ",";
		r += ";";
	}
	voikko_free_mor_analysis(a);
	return r;
}
inline string analyze(VoikkoHandle * h, const wstring & w) { return analyses(voikkoAnalyzeWordUcs4(h, w.c_str())); }
inline string analyzeC(VoikkoHandle * h, const string & w) { return analyses(voikkoAnalyzeWordCstr(h, w.c_str())); }
// every query function for one argument
inline string all(VoikkoHandle * h, const wstring & w) {
	return "S" + spell(h, w) + " G" + suggest(h, w) + " H" + hyphens(h, w) + " I" + insert(h, utf8(w), "+", 1) + " A" + analyze(h, w) + " T" + tokens(h, w) + " E" + sentences(h, w) + " C" + grammar(h, w);
}
enum Kind { SPELL, SUGGEST, HYPHENS, INSERT, ANALYZE, TOKENS, SENTENCES, GRAMMAR, GRAMMAR_AT, KINDS };
inline const char * kindName(int k) { static const char * n[] = {"spell", "suggest", "hyphenate", "insert-hyphens", "analyze", "tokens", "sentences", "grammar", "grammar-at"}; return n[k]; }
// a: prefix length (0: whole), start, skip for GRAMMAR_AT
inline string query(VoikkoHandle * h, int kind, const wstring & w, size_t len = 0, size_t start = 0, int skip = 0) {
	switch (kind) {
	case SPELL: return spell(h, w);
	case SUGGEST: return suggest(h, w);
	case HYPHENS: return hyphens(h, w);
	case INSERT: return insert(h, utf8(w), "+", 1);
	case ANALYZE: return analyze(h, w);
	case TOKENS: return tokens(h, w);
	case SENTENCES: return sentences(h, w);
	case GRAMMAR: return grammar(h, w);
	default: return grammarAt(h, w.c_str(), len ? len : w.size(), start, skip);
	}
}

// ---- dictionaries
inline vector<string> finnishWords() {
	return {
		"[Ln][Xp]kissa[X]kissa[Sn][Ny]", "[Ln][Xp]koira[X]koira[Sn][Ny]", "[Ln][Xp]talo[X]talo[Sn][Ny]", "[Ln][Xp]aa[X]aa[Sn][Ny]", "[Ln][Xp]ab[X]ab[Sn][Ny]",
		"[Ln][Xp]auto[X]auto[Bh][Bc][Ln][Xp]tie[X]tie[Sn][Ny]", "[Ln][Xp]linja-auto[X]linja[Bh][Bc]-[Bh][Bc][Ln][Xp]auto[X]auto[Sn][Ny]",
		"[Lee][Xp]matti[X]matti[Sn][Ny]", "[Lep][Xp]turku[X]turku[Sn][Ny]", "[Lep][Xp]turku[X]turun[Sg][Ny]", "[Ln][Ica][Xp]suomi[X]suomi[Sn][Ny]",
		"[La][Xp]esim.[X]esim.[Sn][Ny]", "[La][Xp]eaa[X]EAA[Sn][Ny]",
		"[Lt][Xp]juosta[X]juoksee[Tt][Ap][P3][Ny][Ef]", "[Lt][Xp]syödä[X]syö[Tt][Ap][P3][Ny][Eb]", "[Lt][Xp]syödä[X]syömään[Tn3][Ny][Sill]", "[Lt][Xp]syödä[X]syödä[Tn1][Ny][Sn]",
		"[Lt][Irm][Xp]ruveta[X]rupeaa[Tt][Ap][P3][Ny][Ef]", "[Lt][Ira][Xp]voida[X]voi[Tt][Ap][P3][Ny][Eb]",
		"[Lk][Xp]ei[X]ei[P3][Ny]", "[Lc][Xp]ja[X]ja", "[Lc][Xp]vaan[X]vaan", "[Ls][Xp]nyt[X]nyt", "[Lu][Xp]2[X]2[Sn][Ny]",
	};
}
inline vf::Net autocorrect(const vector<std::pair<string, string>> & rules) {
	vf::Net n;
	for (auto & r : rules) {
		auto a = vf::splitUtf8(r.first), b = vf::splitUtf8(r.second);
		vector<std::pair<string, string>> p;
		for (size_t i = 0; i < std::max(a.size(), b.size()); i++) p.push_back({i < a.size() ? a[i] : "", i < b.size() ? b[i] : ""});
		n.path(p);
	}
	return n;
}
inline vector<std::pair<string, string>> rules() { return {{"joten kuten", "jotenkuten"}, {"kisaa", "kissa"}, {"vai ko", "vaiko"}, {"ett\u00e4 n", "ett\u00e4"}}; }
inline void finnish(const string & root, const string & name, const vector<string> & words = finnishWords(), const vector<std::pair<string, string>> & rl = rules(), const string & more = "") {
	vf::dict(root, name, "Language: fi-x-" + name + "\nDescription: " + name + "\nGrammar-Backend: finnishVfst\n" + more, {{"mor.vfst", vf::Writer::write(vf::finnishLexicon(words), false)}, {"autocorr.vfst", vf::Writer::write(autocorrect(rl), false)}});
}
// acceptor and error model of a language without Finnish rules
inline void plain(const string & root, const string & name, const string & lang) {
	auto path = [](vf::Net & n, const string & w, const string & out, int fw) { vector<std::pair<string, string>> p; for (auto & c : vf::splitUtf8(w)) p.push_back({c, c}); for (auto & o : vf::symbols(out)) p.push_back({"", o}); n.path(p, fw); };
	vf::Net mor, spl, err;
	for (auto & w : vector<string>{"ab", "ba", "abba", "kod", "Bo"}) { path(mor, w, "", 0); path(spl, w, "", (int) w.size() * 10); }
	// copy everything, or exchange a and b once
	int done = err.add();
	for (auto c : {"a", "b", "k", "o", "d", "B"}) { err.arc(0, c, c, 0, 0); err.arc(done, c, c, done, 0); }
	err.arc(0, "a", "b", done, 100); err.arc(0, "b", "a", done, 150); err.arc(0, "", "b", done, 300);
	err.fin(0, 0); err.fin(done, 0);
	vf::dict(root, name, "Language: " + lang + "\nDescription: " + name + "\nMorphology-Backend: vfst\nSpeller-Backend: vfst\nSuggestion-Backend: vfst\nHyphenator-Backend: AnalyzerToFinnishHyphenatorAdapter(currentAnalyzer)\nGrammar-Backend: null\n", {{"mor.vfst", vf::Writer::write(mor, true)}, {"spl.vfst", vf::Writer::write(spl, true)}, {"err.vfst", vf::Writer::write(err, true)}});
}
// a dictionary of the HFST spelling library
inline void hfst(const string & root, const string & name, const string & lang) {
	vf::Net acc, err;
	for (auto & w : vector<string>{"ab", "ba", "abba", "kod", "Bo", "EU", "b\u00e4"}) { vector<std::pair<string, string>> p; for (auto & c : vf::splitUtf8(w)) p.push_back({c, c}); acc.path(p, (int) w.size()); }
	int done = err.add();
	for (auto c : {"a", "b", "k", "o", "d", "B", "E", "U", "\u00e4"}) { err.arc(0, c, c, 0, 0); err.arc(done, c, c, done, 0); }
	err.arc(0, "a", "b", done, 1); err.arc(0, "b", "a", done, 2); err.arc(0, "", "b", done, 3); err.arc(0, "A", "a", done, 1); err.arc(0, "a", "\u00e4", done, 1); err.arc(0, "b", "", done, 4);
	err.fin(0, 0); err.fin(done, 0);
	mc::mkdirs(root + "/3"); mc::writeFile(root + "/3/" + name + ".zhfst", zh::archive(lang, name, acc, err));
}
}
#endif
