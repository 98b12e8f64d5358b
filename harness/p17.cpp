// P17: the command-line tools print what the library answers, for every option combination and input.
#include <spawn.h>
#include <sys/wait.h>
#include "api.hpp"
using namespace mc;
extern char ** environ;
static int inFd, outFd, errFd;
static string slurp(int fd) { string r; char b[65536]; ssize_t k; lseek(fd, 0, SEEK_SET); while ((k = read(fd, b, sizeof b)) > 0) r.append(b, k); return r; }
struct Ran { string out, err; int status; };
static string root, bin[3];
enum Tool { SPELL, HYPH, GC };
static const char * NAME[] = {"voikkospell", "voikkohyphenate", "voikkogc"};
static Ran exec(int tool, const vector<string> & args, const string & in) {
	for (int fd : {inFd, outFd, errFd}) { if (ftruncate(fd, 0)) _exit(3); lseek(fd, 0, SEEK_SET); }
	size_t d = 0; while (d < in.size()) { ssize_t k = write(inFd, in.data() + d, in.size() - d); if (k <= 0) _exit(3); d += k; }
	lseek(inFd, 0, SEEK_SET);
	vector<char *> v; v.push_back((char *) NAME[tool]); for (auto & s : args) v.push_back((char *) s.c_str()); v.push_back(nullptr);
	posix_spawn_file_actions_t a; posix_spawn_file_actions_init(&a);
	posix_spawn_file_actions_adddup2(&a, inFd, 0); posix_spawn_file_actions_adddup2(&a, outFd, 1); posix_spawn_file_actions_adddup2(&a, errFd, 2);
	pid_t p; if (posix_spawn(&p, bin[tool].c_str(), &a, nullptr, v.data(), environ)) { perror("spawn"); _exit(3); }
	posix_spawn_file_actions_destroy(&a);
	Ran r; waitpid(p, &r.status, 0); r.out = slurp(outFd); r.err = slurp(errFd);
	E().step();
	return r;
}
static VoikkoHandle * open(const string & lang) { const char * e = nullptr; return voikkoInit(&e, lang.c_str(), root.c_str()); }
static vector<string> lines(const string & in) { vector<string> r; size_t i = 0; while (i < in.size()) { size_t j = in.find('\n', i); if (j == string::npos) j = in.size(); r.push_back(in.substr(i, j - i)); i = j + 1; } return r; }
static bool decode(const string & s, wstring & w) { // lines end at a null byte; malformed lines are skipped
	w.clear();
	string t = s.substr(0, s.find('\0'));
	std::mbstate_t st = {}; const char * p = t.c_str(); size_t n = mbsrtowcs(nullptr, &p, 0, &st);
	if (n == (size_t) -1) return false;
	w.resize(n); p = t.c_str(); st = {}; mbsrtowcs(&w[0], &p, n, &st);
	return true;
}
struct Want { string out; bool err = false; int status = 0; };
static const std::map<string, int> SPELL_OPT = {{"ignore_dot", 0}, {"ignore_numbers", 1}, {"ignore_nonwords", 10}, {"accept_first_uppercase", 6}, {"accept_all_uppercase", 7}, {"accept_extra_hyphens", 11}, {"accept_missing_hyphens", 12}, {"ocr_suggestions", 8}};
static const std::map<string, int> HYPH_OPT = {{"no_ugly_hyphenation", 4}, {"ignore_dot", 0}, {"hyphenate_unknown_words", 15}};
static const std::map<string, int> GC_OPT = {{"accept_titles", 13}, {"accept_unfinished_paragraphs", 14}, {"accept_bulleted_lists", 16}};
static bool boolean(VoikkoHandle * h, const std::map<string, int> & m, const string & a) {
	size_t e = a.find('='); if (e == string::npos || e + 2 != a.size()) return false;
	auto it = m.find(a.substr(0, e)); if (it == m.end() || (a[e + 1] != '0' && a[e + 1] != '1')) return false;
	voikkoSetBooleanOption(h, it->second, a[e + 1] == '1');
	return true;
}
static string morphology(VoikkoHandle * h, const wstring & w) {
	string r; voikko_mor_analysis ** l = voikkoAnalyzeWordUcs4(h, w.c_str()); int n = 0;
	for (auto ** a = l; *a; a++) { n++; for (const char ** k = voikko_mor_analysis_keys(*a); *k; k++) r += "A(" + utf8(w) + "):" + num(n) + ":" + *k + "=" + utf8(voikko_mor_analysis_value_ucs4(*a, *k)) + "\n"; }
	voikko_free_mor_analysis(l);
	return r;
}
static Want wantSpell(const vector<string> & opts, const string & lang, const string & in) {
	Want r; VoikkoHandle * h = open(lang);
	int mode = 0; bool sug = false, mor = false, oneLine = false; string sep = " ";
	for (auto & o : opts) {
		if (o == "-t") mode = 1; else if (o == "-tt") mode = 2; else if (o == "-s") sug = true; else if (o == "-m") mor = true; else if (o == "-M") { mor = true; mode = 3; }
		else if (o.compare(0, 2, "-x") == 0) { oneLine = true; if (o.size() == 3) sep = o.substr(2); } // without a character the separator given before, or a space, is used
		else if (o.compare(0, 2, "-c") == 0) ; // the cache has no visible effect
		else if (!boolean(h, SPELL_OPT, o)) { r.status = 1; r.err = true; }
	}
	if (r.status) { voikkoTerminate(h); return r; }
	for (auto & l : lines(in)) {
		wstring w; if (l.empty() || !decode(l, w)) continue;
		if (w.size() > 255) { r.err = true; continue; }
		string u = utf8(w);
		bool ok = mode == 3 || voikkoSpellUcs4(h, w.c_str()) == VOIKKO_SPELL_OK;
		vector<wstring> s; if (!ok && (sug || oneLine)) { wchar_t ** a = voikkoSuggestUcs4(h, w.c_str()); if (a) { s = toVec(a); voikko_free_suggest_ucs4(a); } }
		if (oneLine) { r.out += u; for (auto & x : s) if (sep != " " || x.find(L' ') == wstring::npos) r.out += sep + utf8(x); r.out += "\n"; }
		else if (mode == 0) r.out += (ok ? "C: " : "W: ") + u + "\n";
		else if (mode == 1) r.out += ok ? "C\n" : "W\n";
		else if (mode == 2 && !ok) r.out += u + "\n";
		if (mor && ok) r.out += morphology(h, w);
		if (!oneLine && sug) for (auto & x : s) r.out += "S: " + utf8(x) + "\n";
	}
	voikkoTerminate(h);
	return r;
}
static Want wantHyph(const vector<string> & opts, const string & lang, const string & in) {
	Want r; VoikkoHandle * h = open(lang); wchar_t sep = L'-';
	voikkoSetBooleanOption(h, VOIKKO_OPT_NO_UGLY_HYPHENATION, 0);
	for (auto & o : opts) {
		if (o.compare(0, 2, "-s") == 0) { if (o.size() != 3) { r.status = 1; r.err = true; } else sep = o[2]; }
		else if (o.compare(0, 27, "min_hyphenated_word_length=") == 0) voikkoSetIntegerOption(h, VOIKKO_MIN_HYPHENATED_WORD_LENGTH, std::max(2, atoi(o.c_str() + 27)));
		else if (!boolean(h, HYPH_OPT, o)) { r.status = 1; r.err = true; }
	}
	if (r.status) { voikkoTerminate(h); return r; }
	for (auto & l : lines(in)) {
		wstring w; if (l.empty() || !decode(l, w)) continue;
		if (w.size() > 255) { r.err = true; continue; }
		char * p = voikkoHyphenateUcs4(h, w.c_str());
		if (!p) { r.err = true; continue; }
		wstring o;
		for (size_t i = 0; i < w.size(); i++) { if (p[i] != ' ') o += sep; if (!(p[i] == '=' && sep == L'-')) o += w[i]; }
		voikkoFreeCstr(p);
		r.out += utf8(o) + "\n";
	}
	voikkoTerminate(h);
	return r;
}
static Want wantGc(const vector<string> & opts, const string & lang, const string & in) {
	Want r; VoikkoHandle * h = open(lang); int op = 0; const char * expl = nullptr; bool numbers = false;
	for (auto & o : opts) {
		if (o == "--tokenize") op = 1; else if (o == "--split-sentences") op = 2; else if (o == "-n") numbers = true;
		else if (o == "explanation_language=fi") expl = "fi"; else if (o == "explanation_language=en") expl = "en";
		else if (!boolean(h, GC_OPT, o)) { r.status = 1; r.err = true; }
	}
	if (r.status) { voikkoTerminate(h); return r; }
	int line = 0;
	for (auto & l : lines(in)) {
		line++;
		wstring w; if (l.empty() || !decode(l, w)) continue;
		if (w.size() > 100000) { r.err = true; continue; }
		string n = numbers ? num(line) + " " : "";
		if (op == 1) for (size_t p = 0; p < w.size(); ) { size_t k = 0; int t = voikkoNextTokenUcs4(h, w.c_str() + p, w.size() - p, &k); r.out += string(t == TOKEN_WORD ? "W" : t == TOKEN_PUNCTUATION ? "P" : t == TOKEN_WHITESPACE ? "S" : "U") + ": \"" + utf8(w.substr(p, k)) + "\"\n"; if (!k) break; p += k; }
		else if (op == 2) for (size_t p = 0; p < w.size(); ) {
			size_t k = 0; int t = voikkoNextSentenceStartUcs4(h, w.c_str() + p, w.size() - p, &k);
			if (t == SENTENCE_NONE) { r.out += "E: " + utf8(w.substr(p)) + "\n"; break; }
			r.out += string(t == SENTENCE_PROBABLE ? "B" : "P") + ": " + utf8(w.substr(p, k)) + "\n"; if (!k) break; p += k;
		}
		else {
			for (int skip = 0; ; skip++) {
				VoikkoGrammarError * e = voikkoNextGrammarErrorUcs4(h, w.c_str(), w.size(), 0, skip);
				r.out += n;
				if (!e) { r.out += "-\n"; break; }
				r.out += "[code=" + num(voikkoGetGrammarErrorCode(e)) + ", level=0, descr=\"\", stpos=" + num((long long) voikkoGetGrammarErrorStartPos(e)) + ", len=" + num((long long) voikkoGetGrammarErrorLength(e)) + ", suggs={";
				const char ** s = voikkoGetGrammarErrorSuggestions(e);
				for (bool first = true; s && *s; s++, first = false) r.out += string(first ? "" : ",") + "\"" + *s + "\"";
				r.out += "}]";
				if (expl) { char * d = voikkoGetGrammarErrorShortDescription(e, expl); r.out += string(" (") + d + ")"; voikkoFreeErrorMessageCstr(d); }
				r.out += "\n";
				voikkoFreeGrammarError(e);
			}
		}
	}
	voikkoTerminate(h);
	return r;
}
static string argText(const vector<string> & a) { string r; for (auto & x : a) r += " " + x; return r; }
static void one(int tool, const vector<string> & opts, const string & in, const string & inName, const string & lang = "fi-x-tool") {
	if (!E().take()) return;
	string d = string(NAME[tool]) + argText(opts) + " -d " + lang + " < " + inName;
	E().desc(d);
	Want w = tool == SPELL ? wantSpell(opts, lang, in) : tool == HYPH ? wantHyph(opts, lang, in) : wantGc(opts, lang, in);
	vector<string> a = {"-p", root, "-d", lang}; a.insert(a.end(), opts.begin(), opts.end());
	Ran r = exec(tool, a, in);
	E().state(hashStr(w.out));
	if (WIFSIGNALED(r.status)) { E().fail(d, "killed by signal " + num(WTERMSIG(r.status))); return; }
	if (WEXITSTATUS(r.status) >= 66) { E().fail(d, "sanitizer report " + r.err.substr(0, 600)); return; }
	if ((WEXITSTATUS(r.status) != 0) != (w.status != 0)) { E().fail(d, "exit status " + num(WEXITSTATUS(r.status)) + ", expected " + num(w.status)); return; }
	if (r.err.empty() == w.err) { E().fail(d, w.err ? "no message on stderr" : "message on stderr: " + show(r.err)); return; }
	if (r.out != w.out) {
		size_t i = 0; while (i < r.out.size() && i < w.out.size() && r.out[i] == w.out[i]) i++;
		i = i > 20 ? i - 20 : 0;
		E().fail(d, "prints ..." + show(r.out.substr(i, 120)) + " instead of ..." + show(w.out.substr(i, 120)));
	}
}
static string join(const vector<string> & l) { string r; for (auto & x : l) r += x + "\n"; return r; }
int main(int argc, char ** argv) {
	E().init(argc, argv);
	setlocale(LC_ALL, "");
	bool small = false, T = E().thorough;
	for (int i = 1; i < argc; i++) { string a = argv[i]; if (a == "--small") small = true; for (int t = 0; t < 3; t++) if (a == string("--") + NAME[t]) bin[t] = argv[++i]; }
	root = scratch("dicts");
	inFd = memfd_create("in", 0); outFd = memfd_create("out", 0); errFd = memfd_create("err", 0);
	api::finnish(root, "tool", api::finnishWords(), api::rules());
	api::finnish(root, "other", {"[Ln][Xp]mato[X]mato[Sn][Ny]"}, {});
	api::plain(root, "plain", "aa");
	vf::dict(root, "sv", "Language: sv-Latn-x-sv\nDescription: Svenska: test\nMorphology-Backend: null\nSpeller-Backend: AllOk\nSuggestion-Backend: null\nHyphenator-Backend: AnalyzerToFinnishHyphenatorAdapter(currentAnalyzer)\nGrammar-Backend: null\n", {});
	const vector<string> words = {"kissa", "kisa", "Kissa", "KISSA", "kISSA", "turku", "Turku", "linja-auto", "linjaauto", "auto-tie", "autotie", "kissa.", "a1", "esim.", "matti", "kis sa", "kissakoira", "k1ssa", "http://a.fi", "talo\xc2\xad", "ko\xc4\xb1ra", "\xe2\x80\x99", "-", "\t", "\xf0\x9f\x98\x80", "Sy\xc3\xb6", "aa'ab", "auto-", "-tie", "vaapaaaa", string(254, 'a'), string(255, 'k'), "rapa'uutinen", "ei", "EAA"};
	const vector<string> odd = {"", "\xff", "ki\xc3", string(256, 'a'), string(300, '\xff'), string("ki\0ssa", 6), "kissa\r"};
	auto all = words; for (size_t i = 0; i < odd.size(); i++) all.insert(all.begin() + 3 * i + 2, odd[i]);
	const string allIn = join(all), wordIn = join(words);
	const vector<string> paras = {"Kissa on  talo.", "kissa ja koira", "Kissa ,koira. Talo.", "Nyt joten kuten. vai ko?", "kisaa.", "Kissa kissa kissa.", "1. kohta (ab. Ei.", "Matti juoksee syö.", "Rupeaa sy\xc3\xb6""d\xc3\xa4.", "- kissa", " ", ".", "Esim. Turku! Ei? \"Ja\" nyt.", "a@b.fi 1,5 % \xe2\x80\xa6 x", "TALO", "Kissa.Koira", "talo\xc2\xad koira .", "\xf0\x9f\x98\x80 Turku  ,"};
	auto allParas = paras; allParas.insert(allParas.begin() + 2, ""); allParas.insert(allParas.begin() + 5, "\xff"); allParas.insert(allParas.begin() + 9, "");
	const string paraIn = join(allParas);
	// spelling
	vector<string> modes = {"-t", "-tt", "-s", "-m", "-M", "-x", "-x;", "-x|", "-c5", "-c-1", "-c0"};
	vector<string> bools; for (auto & p : SPELL_OPT) for (auto v : {"=0", "=1"}) bools.push_back(p.first + v);
	E().startFamily("voikkospell: sequences of mode options");
	sequences(modes.size(), 0, small ? 1 : T ? 3 : 2, [&](const vector<size_t> & v) { vector<string> o; for (size_t i : v) o.push_back(modes[i]); one(SPELL, o, allIn, "all lines"); });
	E().startFamily("voikkospell: modes and settings");
	sequences(bools.size(), 1, small ? 1 : 2, [&](const vector<size_t> & v) {
		vector<string> o; for (size_t i : v) o.push_back(bools[i]);
		for (auto & m : vector<vector<string>>{{}, {"-t"}, {"-x;"}}) { if (v.size() == 2 && !T && !m.empty() && m[0] != "-x;") continue; auto p = o; p.insert(p.end(), m.begin(), m.end()); one(SPELL, p, allIn, "all lines"); }
	});
	E().startFamily("voikkospell: all settings together");
	for (int mask = 0; mask < 256; mask++) { if (small && mask % 16) continue; vector<string> o; int k = 0; for (auto & p : SPELL_OPT) o.push_back(p.first + (mask >> k++ & 1 ? "=1" : "=0")); one(SPELL, o, allIn, "all lines"); if (mask % 2) { o.push_back("-s"); one(SPELL, o, allIn, "all lines"); } }
	E().startFamily("voikkospell: sequences of lines");
	vector<string> lineSet = {"kissa", "kisa", "", "\xff", string(256, 'a'), "turku", "k1s sa", string(255, 'k')};
	for (auto & o : vector<vector<string>>{{}, {"-s"}, {"-m"}}) sequences(lineSet.size(), 0, small ? 2 : T ? 4 : 3, [&](const vector<size_t> & v) {
		if (v.size() == 3 && !o.empty() && !T) return;
		string in, name; for (size_t i : v) { in += lineSet[i] + "\n"; name += show(lineSet[i].substr(0, 12)) + " "; }
		one(SPELL, o, in, "lines " + name);
		if (!v.empty() && !lineSet[v.back()].empty()) one(SPELL, o, in.substr(0, in.size() - 1), "lines " + name + "without a final newline");
	});
	E().startFamily("other dictionaries");
	for (auto & lang : {"aa", "sv-Latn-x-sv", "fi-x-other"}) { for (auto & m : modes) one(SPELL, {m}, allIn + join({"ab", "ba", "bb", "Kod", "mato", "Mato"}), "all lines", lang); for (auto & s : {"-s+", "no_ugly_hyphenation=1"}) if (string(lang) != "sv-Latn-x-sv") one(HYPH, {s}, wordIn, "all words", lang); for (auto & s : {"--tokenize", "--split-sentences", "-n"}) one(GC, {s}, paraIn, "all paragraphs", lang); }
	// hyphenation
	E().startFamily("voikkohyphenate: sequences of options");
	vector<string> ho = {"-s-", "-s+", "-s ", "-s=", "no_ugly_hyphenation=0", "no_ugly_hyphenation=1", "ignore_dot=0", "ignore_dot=1", "hyphenate_unknown_words=0", "hyphenate_unknown_words=1", "min_hyphenated_word_length=0", "min_hyphenated_word_length=2", "min_hyphenated_word_length=3", "min_hyphenated_word_length=6", "min_hyphenated_word_length=7", "min_hyphenated_word_length=300"};
	sequences(ho.size(), 0, small ? 1 : T ? 3 : 2, [&](const vector<size_t> & v) { vector<string> o; for (size_t i : v) o.push_back(ho[i]); one(HYPH, o, allIn, "all lines"); });
	for (int mask = 0; mask < 8; mask++) for (auto s : {"-s-", "-s+"}) for (int m = 0; m < 9; m++) one(HYPH, {string("no_ugly_hyphenation=") + (mask & 1 ? "1" : "0"), string("ignore_dot=") + (mask & 2 ? "1" : "0"), string("hyphenate_unknown_words=") + (mask & 4 ? "1" : "0"), s, "min_hyphenated_word_length=" + num(m)}, wordIn, "all words");
	E().startFamily("voikkohyphenate: sequences of lines");
	sequences(lineSet.size(), 0, small ? 2 : 3, [&](const vector<size_t> & v) { string in, name; for (size_t i : v) { in += lineSet[i] + "\n"; name += show(lineSet[i].substr(0, 12)) + " "; } one(HYPH, {}, in, "lines " + name); });
	// grammar
	E().startFamily("voikkogc: sequences of options");
	vector<string> go = {"--tokenize", "--split-sentences", "-n", "explanation_language=fi", "explanation_language=en", "accept_titles=0", "accept_titles=1", "accept_unfinished_paragraphs=0", "accept_unfinished_paragraphs=1", "accept_bulleted_lists=0", "accept_bulleted_lists=1"};
	sequences(go.size(), 0, small ? 1 : T ? 3 : 2, [&](const vector<size_t> & v) { vector<string> o; for (size_t i : v) o.push_back(go[i]); one(GC, o, paraIn, "all paragraphs"); });
	for (int mask = 0; mask < 64; mask++) { vector<string> o = {string("accept_titles=") + (mask & 1 ? "1" : "0"), string("accept_unfinished_paragraphs=") + (mask & 2 ? "1" : "0"), string("accept_bulleted_lists=") + (mask & 4 ? "1" : "0")}; if (mask & 8) o.push_back("-n"); if (mask & 16) o.push_back("explanation_language=fi"); else if (mask & 32) o.push_back("explanation_language=en"); one(GC, o, paraIn, "all paragraphs"); }
	E().startFamily("voikkogc: sequences of lines");
	vector<string> ps = {"Kissa  on.", "Talo.", "", "\xff", "kisaa ,x", "Ei? ja."};
	for (auto & o : vector<vector<string>>{{}, {"-n"}, {"--tokenize"}, {"--split-sentences"}}) sequences(ps.size(), 0, small ? 1 : 3, [&](const vector<size_t> & v) { string in, name; for (size_t i : v) { in += ps[i] + "\n"; name += show(ps[i]) + " "; } one(GC, o, in, "lines " + name); });
	E().startFamily("voikkogc: long lines");
	for (int n : {254, 255, 256, 1000, 1023, 1024, 4096, 99996, 99998, 100000, 100001, 100004}) for (auto & o : vector<vector<string>>{{}, {"--tokenize"}, {"--split-sentences"}}) {
		string l; while ((int) l.size() + 5 <= n) l += "Ab  "; l.resize(n, '.');
		one(GC, o, "Kissa.\n" + l + "\nTalo  ja.\n", "a line of " + num(n) + " characters");
	}
	// errors, listings
	E().startFamily("unusable options and dictionaries");
	for (int t = 0; t < 3; t++) for (auto & a : vector<vector<string>>{{"-q"}, {"ignore_dot=2"}, {"--nonsense"}, {"kissa"}, {"ignore_dot"}, {"no_ugly_hyphenation=yes"}, {"accept_titles=2"}, {"-ttt"}, {""}, {"-t", "-q"}, {"-s"}, {"-s++"}}) {
		if (t == SPELL && (a[0] == "-s" || a == vector<string>{"-t"})) continue;
		if (t != HYPH && a[0] == "-s++") continue;
		one(t, a, wordIn, "all words");
	}
	for (int t = 0; t < 3; t++) for (auto & lang : {"xx", "fi-x-none", "", "sv-x-other"}) {
		if (!E().take()) continue;
		string d = string(NAME[t]) + " -d " + lang; E().desc(d);
		if (VoikkoHandle * h = open(lang)) { voikkoTerminate(h); continue; }
		Ran r = exec(t, {"-p", root, "-d", lang}, "kissa\n");
		if (!WIFEXITED(r.status) || WEXITSTATUS(r.status) == 0 || WEXITSTATUS(r.status) >= 66) E().fail(d, "ends with status " + num(r.status));
		else if (r.err.empty() || !r.out.empty()) E().fail(d, "prints " + show(r.out) + " and the message " + show(r.err));
	}
	for (auto & j : {"0", "-1", "201", "x", ""}) { if (!E().take()) continue; string d = string("voikkospell -j ") + j; E().desc(d); Ran r = exec(SPELL, {"-p", root, "-d", "fi-x-tool", "-j", j}, "kissa\n"); if (!WIFEXITED(r.status) || WEXITSTATUS(r.status) == 0 || r.err.empty() || !r.out.empty()) E().fail(d, "status " + num(r.status) + " output " + show(r.out) + " message " + show(r.err)); }
	if (E().take()) { E().desc("voikkospell -j"); Ran r = exec(SPELL, {"-p", root, "-j"}, "kissa\n"); if (!WIFEXITED(r.status) || WEXITSTATUS(r.status) == 0 || r.err.empty()) E().fail("voikkospell -j", "status " + num(r.status)); }
	E().startFamily("listings, help and version");
	vector<string> paths = {root, root + "/none"};
	for (auto & p : paths) for (auto & o : {"-l", "-L"}) {
		if (!E().take()) continue;
		string d = string("voikkospell ") + o + " -p " + (p == root ? "dictionaries" : "nothing"); E().desc(d);
		string want;
		if (string(o) == "-l") { voikko_dict ** l = voikko_list_dicts(p.c_str()); for (auto ** i = l; *i; i++) { string sc = voikko_dict_script(*i); want += string(voikko_dict_language(*i)) + (sc.empty() ? "" : "-" + sc) + "-x-" + voikko_dict_variant(*i) + ": " + voikko_dict_description(*i) + "\n"; } voikko_free_dicts(l); }
		else { auto add = [&](const char * n, char ** l) { for (char ** i = l; *i; i++) want += string(n) + ":" + *i + "\n"; voikkoFreeCstrArray(l); }; add("spell", voikkoListSupportedSpellingLanguages(p.c_str())); add("hyphen", voikkoListSupportedHyphenationLanguages(p.c_str())); add("grammar", voikkoListSupportedGrammarCheckingLanguages(p.c_str())); }
		for (auto & args : vector<vector<string>>{{o, "-p", p}, {"-p", p, o}, {"-d", "xx", "-p", p, o}}) { Ran r = exec(SPELL, args, ""); if (r.status != 0 || r.out != want || !r.err.empty()) { E().fail(d, "status " + num(r.status) + " prints " + show(r.out) + " instead of " + show(want)); break; } }
		if (p == root && string(o) == "-l" && std::count(want.begin(), want.end(), '\n') != 4) E().fail(d, "the library lists " + show(want));
	}
	for (int t = 0; t < 3; t++) for (auto & o : {"-h", "--help", "--version"}) {
		if (!E().take()) continue;
		string d = string(NAME[t]) + " " + o; E().desc(d);
		Ran r = exec(t, {o}, "");
		if (r.status != 0 || r.out.empty() || !r.err.empty()) E().fail(d, "status " + num(r.status) + " prints " + show(r.out) + " message " + show(r.err));
		else if (string(o) == "--version" && r.out.find(voikkoGetVersion()) == string::npos) E().fail(d, "does not print the version of the library");
	}
	return E().finish();
}
