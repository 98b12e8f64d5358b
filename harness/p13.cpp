// P13: which dictionaries are listed and which one is opened, for every small population of the search path.
#include <functional>
#include <cstring>
#include <cstdarg>
#include <dirent.h>
#include <dlfcn.h>
#include <fcntl.h>
#include <pwd.h>
#include <sys/stat.h>
#include "api.hpp"
#include "zhfst.hpp"
using namespace mc;
// ---- the directories outside the scratch area are stood in for by scratch directories
static string base; // scratch
static string away(const char * p) {
	string s = p ? p : "";
	if (base.empty()) return s;
	for (auto & m : vector<std::pair<string, string>>{{"/etc/voikko", "/etc"}, {"/nonexistent-voikko/sys1", "/sys1"}, {"/nonexistent-voikko/sys2", "/sys2"}, {"/nonexistent-home/.voikko", "/home"}}) if (s.compare(0, m.first.size(), m.first) == 0) return base + m.second + s.substr(m.first.size());
	return s;
}
template <class F> static F next(const char * n) { return (F) dlsym(RTLD_NEXT, n); }
extern "C" {
DIR * opendir(const char * p) { static auto f = next<DIR * (*)(const char *)>("opendir"); return f(away(p).c_str()); }
FILE * fopen(const char * p, const char * m) { static auto f = next<FILE * (*)(const char *, const char *)>("fopen"); return f(away(p).c_str(), m); }
FILE * fopen64(const char * p, const char * m) { static auto f = next<FILE * (*)(const char *, const char *)>("fopen64"); return f(away(p).c_str(), m); }
#define OPEN(name, pre, arg) \
int name(pre const char * p, int fl, ...) { va_list a; va_start(a, fl); int m = va_arg(a, int); va_end(a); static auto f = next<int (*)(arg const char *, int, ...)>(#name);
#define COMMA ,
OPEN(open, , ) return f(away(p).c_str(), fl, m); }
OPEN(open64, , ) return f(away(p).c_str(), fl, m); }
OPEN(openat, int d COMMA, int COMMA) return f(d, away(p).c_str(), fl, m); }
OPEN(openat64, int d COMMA, int COMMA) return f(d, away(p).c_str(), fl, m); }
int stat(const char * p, struct stat * s) { static auto f = next<int (*)(const char *, struct stat *)>("stat"); return f(away(p).c_str(), s); }
int stat64(const char * p, struct stat64 * s) { static auto f = next<int (*)(const char *, struct stat64 *)>("stat64"); return f(away(p).c_str(), s); }
int access(const char * p, int m) { static auto f = next<int (*)(const char *, int)>("access"); return f(away(p).c_str(), m); }
static char homeDir[] = "/nonexistent-home";
int getpwuid_r(uid_t u, struct passwd * pw, char * buf, size_t n, struct passwd ** r) { memset(pw, 0, sizeof *pw); pw->pw_uid = u; pw->pw_name = homeDir; pw->pw_dir = homeDir; *r = pw; return 0; }
struct passwd * getpwuid(uid_t u) { static struct passwd pw; struct passwd * r; getpwuid_r(u, &pw, nullptr, 0, &r); return r; }
}
static const char * PLACES[] = {"path", "env1", "env2", "home", "etc", "sys1", "sys2"};
static const int NP = 7;
struct Dict { int place; string tag, id; bool grammar; int dir; };
struct Tag { string lang, script, priv; string str() const { return lang + (script.empty() ? "" : "-" + script) + (priv.empty() ? "" : "-x-" + priv); } };
static string low(string s) { for (auto & c : s) if (c >= 'A' && c <= 'Z') c += 32; return s; }
static bool zhfst(const string & tag) { return tag.compare(0, 6, "zhfst:") == 0; } // in an archive of the HFST library, whose language this is
static Tag parse(string s) {
	if (zhfst(s)) s = s.substr(6);
	Tag t; size_t x = s.find("-x-");
	if (x != string::npos) { for (char c : s.substr(x + 3)) if (c != '-') t.priv += c; t.priv = low(t.priv); s = s.substr(0, x); }
	size_t d = s.find('-'); if (d != string::npos) { if (s.size() - d - 1 == 4) t.script = s.substr(d + 1); s = s.substr(0, d); }
	t.lang = low(s.substr(0, s.find('_')));
	return t;
}
static string W(const string & id) { return "sana" + id; }
static std::map<string, string> vfstCache;
static string morFor(const string & id) { auto & s = vfstCache[id]; if (s.empty()) s = vf::Writer::write(vf::finnishLexicon({"[Ln]" + W(id) + "[Sn][Ny]"}), false); return s; }
static vf::Net lettersOf(const vector<string> & words) { vf::Net n; for (auto & w : words) { vector<std::pair<string, string>> p; for (auto & c : vf::splitUtf8(w)) p.push_back({c, c}); n.path(p, 1); } return n; }
static void lay(const Dict & d) {
	if (zhfst(d.tag)) {
		vf::Net err; err.fin(0); for (char c = 'a'; c <= 'z'; c++) err.arc(0, string(1, c), string(1, c), 0);
		mkdirs(base + "/" + PLACES[d.place] + "/3");
		writeFile(base + "/" + PLACES[d.place] + "/3/" + num(d.dir) + ".zhfst", zh::archive(d.tag.substr(6), "about " + d.id, lettersOf({W(d.id)}), err));
		return;
	}
	string dir = base + "/" + PLACES[d.place] + "/5/mor-" + num(d.dir);
	mkdirs(dir);
	writeFile(dir + "/index.txt", "Voikko-Dictionary-Format: 5\n" + (d.tag == "(none)" ? string() : "Language: " + d.tag + "\n") + "Description: about " + d.id + "\n" + (d.grammar ? "Grammar-Backend: finnish\n" : "Grammar-Backend: null\n"));
	writeFile(dir + "/mor.vfst", morFor(d.id));
}
static void clear() { for (auto p : PLACES) { string c = base + "/" + p; rmTree(c); } }
static const vector<string> ALL_IDS = {"a", "b", "c", "d", "e", "f", "g", "h"};
static string openedAs(VoikkoHandle * h) { string r; for (auto & i : ALL_IDS) if (voikkoSpellCstr(h, W(i).c_str()) == VOIKKO_SPELL_OK) r += i; return r.empty() ? "(nothing)" : r; }
static string population(const vector<Dict> & v) { string s; for (auto & d : v) s += string(PLACES[d.place]) + ":" + d.tag + "=" + d.id + (d.grammar ? "" : "(no grammar)") + " "; return s; }

static vector<string> REQ = {"fi", "fi-x-standard", "fi-x-default", "fi-x-murre", "fi-x-vfstd", "fi-x-ab", "FI-x-A-B", "fi_FI", "fi-FI", "fi-Latn", "fi-Latn-x-standard", "sv", "sv-x-standard", "sv-x-murre", "de", "", "fi-x-nothing", "Sv", "fi-x-a--b", "fi-x--a-b-", "fi-x-V-F-S-T-D"};
static const char * ENV[] = {nullptr, "murre", "standard", "Vf-Std", ""};
// how: 0 path argument, 1 no path argument (the first location is not searched)
static void check(const vector<Dict> & v, const string & noise, unsigned envs, bool nullPath) {
	string d = population(v) + noise + (nullPath ? " without path" : "");
	E().desc(d);
	const char * path = nullPath ? nullptr : nullptr; string pathS = base + "/path"; if (!nullPath) path = pathS.c_str();
	struct Found { Tag t; string id; bool grammar, hyphens; };
	std::map<string, Found> m;
	for (int p = nullPath ? 1 : 0; p < NP; p++) for (auto & x : v) if (x.place == p) { Tag t = parse(x.tag == "(none)" ? "fi" : x.tag); if (t.lang.empty()) continue; m.insert({t.str(), Found{t, x.id, x.grammar && !zhfst(x.tag), !zhfst(x.tag)}}); }
	// what is listed
	std::multiset<string> want, got; std::map<string, string> firstOf;
	for (auto & f : m) want.insert(f.second.t.lang + "/" + f.second.t.script + "/" + (f.second.t.priv.empty() ? "standard" : f.second.t.priv) + "/about " + f.second.id);
	voikko_dict ** l = voikko_list_dicts(path);
	E().step();
	string order;
	for (auto ** p = l; *p; p++) { string s = string(voikko_dict_language(*p)) + "/" + voikko_dict_script(*p) + "/" + voikko_dict_variant(*p) + "/" + voikko_dict_description(*p); got.insert(s); order += s + " "; string k = string(voikko_dict_language(*p)) + (*voikko_dict_script(*p) ? string("-") + voikko_dict_script(*p) : ""); firstOf.insert({k, string(voikko_dict_description(*p)).substr(6)}); }
	voikko_free_dicts(l);
	E().state(hashStr(order));
	if (want != got) { string a; for (auto & s : want) a += s + " "; E().fail(d, "listed: " + order + "; expected: " + a); }
	// languages by capability
	std::set<string> ws, wg, wh;
	for (auto & f : m) { string s = f.second.t.lang + (f.second.t.script.empty() ? "" : "-" + f.second.t.script); ws.insert(s); if (f.second.grammar) wg.insert(s); if (f.second.hyphens) wh.insert(s); }
	for (int cap = 0; cap < 3; cap++) {
		char ** a = cap == 0 ? voikkoListSupportedSpellingLanguages(path) : cap == 1 ? voikkoListSupportedHyphenationLanguages(path) : voikkoListSupportedGrammarCheckingLanguages(path);
		vector<string> g = toVec(a); voikkoFreeCstrArray(a);
		E().step();
		std::set<string> gs(g.begin(), g.end());
		auto & wanted = cap == 2 ? wg : cap == 1 ? wh : ws;
		if (gs != wanted || gs.size() != g.size()) E().fail(d, string(cap == 0 ? "spelling" : cap == 1 ? "hyphenation" : "grammar") + " languages listed: " + showList(g) + "; expected " + showList(vector<string>(wanted.begin(), wanted.end())));
	}
	// what is opened
	for (int e = 0; e < 5; e++) if (envs >> e & 1) {
		if (ENV[e]) setenv("VOIKKO_DICTIONARY", ENV[e], 1); else unsetenv("VOIKKO_DICTIONARY");
		for (auto & r : REQ) {
			Tag t = parse(r);
			if ((t.priv.empty() || t.priv == "default") && ENV[e]) { t.priv.clear(); for (char c : low(ENV[e])) if (c != '-') t.priv += c; }
			bool anyDefault = false; for (auto & f : m) if (f.second.t.lang == t.lang && f.second.t.priv == "default") anyDefault = true;
			std::set<string> ok; string first;
			for (auto & f : m) {
				auto & x = f.second.t; if (x.lang != t.lang || x.script != t.script) continue;
				if (t.priv.empty()) { if (first.empty()) first = f.second.id; if (x.priv == "default") { ok = {f.second.id}; first = "!"; } else if (x.priv == "standard" && !anyDefault && first != "!") { ok = {f.second.id}; } }
				else if (t.priv == "standard") { if (x.priv.empty() || x.priv == "standard") ok.insert(f.second.id); }
				else if (x.priv == t.priv) ok.insert(f.second.id);
			}
			if (t.priv.empty() && ok.empty() && !first.empty()) ok.insert(first);
			if (t.priv == "standard" && ok.size() > 1 && !anyDefault) { ok.clear(); for (auto & f : m) if (f.second.t.lang == t.lang && f.second.t.script == t.script && f.second.t.priv == "standard") ok.insert(f.second.id); } // exact before general
			if (t.priv.empty() && anyDefault) for (auto & f : m) if (f.second.t.lang == t.lang && f.second.t.script == t.script && f.second.t.priv == "standard" && first != "!") ok.insert(f.second.id); // the default is of another script: unspecified
			const char * err = (const char *) 1;
			VoikkoHandle * h = voikkoInit(&err, r.c_str(), path);
			E().step();
			string g = h ? openedAs(h) : "(error)";
			if (h && err) E().fail(d, r + ": opened, yet an error is reported: " + err);
			if (!h && (!err || err == (const char *) 1 || !*err)) E().fail(d, r + ": no error message");
			if (h) voikkoTerminate(h);
			string w; for (auto & i : ok) w += i;
			if (ok.empty() ? g != "(error)" : !ok.count(g)) E().fail(d, "request '" + r + "'" + (ENV[e] ? string(" VOIKKO_DICTIONARY=") + ENV[e] : "") + " opens " + g + ", expected " + (ok.empty() ? "an error" : w));
			if (!ENV[e] && t.priv.empty() && h) { auto k = firstOf.find(t.lang + (t.script.empty() ? "" : "-" + t.script)); if (k == firstOf.end() || k->second != g) E().fail(d, "request '" + r + "' opens " + g + " but the first one listed is " + (k == firstOf.end() ? "none" : k->second)); }
		}
	}
	unsetenv("VOIKKO_DICTIONARY");
}
static void setPath() { setenv("VOIKKO_DICTIONARY_PATH", (base + "/env1:" + base + "/env2").c_str(), 1); }
int main(int argc, char ** argv) {
	E().init(argc, argv);
	bool small = false, T = E().thorough;
	for (int i = 1; i < argc; i++) if (!strcmp(argv[i], "--small")) small = true;
	base = scratch("p13");
	unsetenv("VOIKKO_DICTIONARY"); setPath();
	vector<string> tags = {"fi", "fi-x-standard", "fi-x-default", "fi-x-murre", "fi-x-vfstd", "fi-x-a-b", "fi-Latn", "fi-Latn-x-standard", "sv-x-murre", "sv_SE", "SV-x-Standard", "(none)"};
	auto run = [&](vector<Dict> v, unsigned envs, bool nullPath = false) {
		for (size_t i = 0; i < v.size(); i++) for (size_t j = 0; j < i; j++) if (v[i].place == v[j].place && parse(v[i].tag == "(none)" ? "fi" : v[i].tag).str() == parse(v[j].tag == "(none)" ? "fi" : v[j].tag).str()) return;
		if (!E().take()) return;
		clear();
		for (size_t i = 0; i < v.size(); i++) { v[i].id = ALL_IDS[i]; v[i].dir = (int) (v.size() - i); lay(v[i]); }
		check(v, "", envs, nullPath);
	};
	E().startFamily("nothing, and one dictionary anywhere");
	run({}, 31); run({}, 31, true);
	for (int p = 0; p < NP; p++) for (auto & t : tags) for (int g = 0; g < 2; g++) for (int np = 0; np < 2; np++) run({Dict{p, t, "", g > 0, 0}}, 31, np);
	E().startFamily("two dictionaries");
	for (int p = 0; p < NP; p++) for (int q = p; q < NP; q++) for (auto & t : tags) for (auto & u : tags) { if (p == q && t >= u) continue; for (int g = 0; g < (small ? 1 : 4); g++) run({Dict{p, t, "", (g & 1) != 0, 0}, Dict{q, u, "", (g & 2) == 0, 0}}, small ? 1 : g == 0 ? 31 : 1, g == 3); }
	E().startFamily("three dictionaries in one place");
	for (size_t a = 0; a < tags.size(); a++) for (size_t b = a + 1; b < tags.size(); b++) for (size_t c = b + 1; c < tags.size(); c++) run({Dict{0, tags[a], "", true, 0}, Dict{0, tags[b], "", true, 0}, Dict{0, tags[c], "", true, 0}}, small ? 1 : 15);
	E().startFamily("four dictionaries in one place");
	if (!small) for (size_t a = 0; a < tags.size(); a++) for (size_t b = a + 1; b < tags.size(); b++) for (size_t c = b + 1; c < tags.size(); c++) for (size_t d = c + 1; d < tags.size(); d++) run({Dict{0, tags[d], "", true, 0}, Dict{0, tags[b], "", true, 0}, Dict{0, tags[c], "", true, 0}, Dict{0, tags[a], "", true, 0}}, 1);
	E().startFamily("three dictionaries in three places");
	if (!small) {
		vector<string> tg = T ? tags : vector<string>{"fi", "fi-x-standard", "fi-x-default", "fi-x-vfstd", "sv-x-murre"};
		for (int p = 0; p < NP; p++) for (int q = p + 1; q < NP; q++) for (int r = q + 1; r < NP; r++) { if (!T && (p + q + r) % 2) continue; for (auto & t : tg) for (auto & u : tg) for (auto & w : tg) run({Dict{p, t, "", true, 0}, Dict{q, u, "", true, 0}, Dict{r, w, "", true, 0}}, 1); }
	}
	E().startFamily("every place at once");
	for (auto & t : tags) for (int missing = 0; missing < 128; missing++) { if (small && missing % 9) continue; vector<Dict> v; for (int p = 0; p < NP; p++) if (missing >> p & 1) v.push_back(Dict{p, t, "", true, 0}); run(v, 1); run(v, 1, true); }
	E().startFamily("archives of the HFST library");
	{
		const vector<string> zt = {"zhfst:fi", "zhfst:sv", "zhfst:sv-x-standard", "zhfst:fi-x-murre", "zhfst:fi-Latn", "zhfst:sv_SE"};
		for (int p = 0; p < NP; p++) for (auto & t : zt) for (int np = 0; np < 2; np++) run({Dict{p, t, "", true, 0}}, 31, np);
		for (int p = 0; p < NP; p++) for (int q = p; q < NP; q++) for (auto & t : zt) {
			if (small && (p + q) % 3) continue;
			for (auto & u : tags) { run({Dict{p, t, "", true, 0}, Dict{q, u, "", true, 0}}, small ? 1 : 3); if (p != q) run({Dict{p, u, "", true, 0}, Dict{q, t, "", true, 0}}, small ? 1 : 3); }
			for (auto & u : zt) if (p != q || t < u) run({Dict{p, t, "", true, 0}, Dict{q, u, "", true, 0}}, 1);
		}
	}
	// entries that are not usable dictionaries, next to usable ones
	E().startFamily("unusable entries");
	struct Noise { const char * name; std::function<void(const string &)> make; };
	string ok = "Voikko-Dictionary-Format: 5";
	auto file = [](const string & s) { return [s](const string & d) { mkdirs(d); writeFile(d + "/index.txt", s); writeFile(d + "/mor.vfst", morFor("h")); }; };
	vector<Noise> noises = {
		{"mor-x", file("Voikko-Dictionary-Format: 4\nLanguage: fi-x-standard\nDescription: about h\n")}, {"mor-x", file("Voikko-Dictionary-Format: 55\nLanguage: fi-x-standard\n")}, {"mor-x", file("Voikko-Dictionary-Format: \nLanguage: fi-x-standard\n")},
		{"mor-x", file("Language: fi-x-standard\n" + ok + "\n")}, {"mor-x", file("")}, {"mor-x", file("\n" + ok + "\nLanguage: fi\n")}, {"mor-x", file(ok + "\nLanguage: \n")}, {"mor-x", file(ok + "\nLanguage: -x-standard\n")},
		{"mor-x", [](const string & d) { mkdirs(d); }}, {"mor-x", [](const string & d) { writeFile(d, "Voikko-Dictionary-Format: 5\n"); }}, {"mor-", file(ok + "\nLanguage: fi-x-standard\n")}, {"morx", file(ok + "\nLanguage: fi-x-standard\n")}, {"xmor-x", file(ok + "\nLanguage: fi\n")}, {"Mor-x", file(ok + "\nLanguage: fi\n")},
		{"mor-x", [](const string & d) { mkdirs(d + "/index.txt"); }}, {"../4/mor-x", file("Voikko-Dictionary-Format: 4\nLanguage: fi\n")}, {"../2/mor-x", file(ok + "\nLanguage: fi-x-standard\n")}, {"../mor-x", file(ok + "\nLanguage: fi-x-standard\n")}, {"mor-x/mor-y", file(ok + "\nLanguage: fi-x-standard\n")},
		{"../3/x.zhfst", [](const string & d) { writeFile(d, "not an archive"); }}, {"../3/xxxxx", [](const string & d) { writeFile(d, "no"); }}, {"../3/y.zhfst", [](const string & d) { mkdirs(d); }}, {"../3/z.zhfst", [](const string & d) { writeFile(d, ""); }},
		{"mor-x", [](const string & d) { if (symlink("nowhere", d.c_str())) {} }},
	};
	for (size_t k = 0; k < noises.size(); k++) for (int p = 0; p < NP; p++) for (int q : {0, 3, 6}) for (auto & t : vector<string>{"", "fi", "fi-x-standard", "fi-x-murre", "sv_SE"}) {
		if (small && (p + q) % 3) continue;
		if (!E().take()) continue;
		clear();
		vector<Dict> v; if (!t.empty()) v.push_back(Dict{q, t, "a", true, 1});
		for (auto & d : v) lay(d);
		string n = base + "/" + PLACES[p] + "/5/" + noises[k].name; mkdirs(base + "/" + PLACES[p] + "/5"); mkdirs(n.substr(0, n.rfind('/')));
		noises[k].make(n);
		check(v, "and entry " + num((long long) k) + " " + noises[k].name + " in " + PLACES[p], 1, false);
	}
	E().startFamily("shapes of the path variable");
	vector<Dict> v = {Dict{1, "fi-x-standard", "a", true, 1}, Dict{2, "fi-x-standard", "b", true, 2}, Dict{2, "sv_SE", "c", true, 3}, Dict{4, "fi-x-murre", "d", true, 4}, Dict{4, "fi-x-standard", "e", true, 5}};
	struct Shape { string v; vector<int> places; };
	string e1 = base + "/env1", e2 = base + "/env2";
	for (auto & s : vector<Shape>{{"", {}}, {":", {}}, {e1, {1}}, {e2, {2}}, {e2 + ":" + e1, {2, 1}}, {e1 + ":", {1}}, {":" + e1, {1}}, {e1 + "::" + e2, {1, 2}}, {"/does/not/exist:" + e2, {2}}, {e1 + "/:" + e2 + "/", {1, 2}}, {e1 + ":" + e1, {1}}, {e2 + ":/does/not/exist", {2}}}) for (int np = 0; np < 3; np++) {
		if (!E().take()) continue;
		clear(); for (auto & d : v) lay(d);
		E().desc("path variable '" + s.v + "'");
		setenv("VOIKKO_DICTIONARY_PATH", s.v.c_str(), 1);
		// same dictionaries, the places renumbered in the order in which they are searched
		vector<Dict> w; int n = 1;
		for (int p : s.places) { for (auto d : v) if (d.place == p) { d.place = n; w.push_back(d); } n++; }
		for (auto d : v) if (d.place == 4) w.push_back(d);
		if (np == 2) { rmTree(base + "/path"); }
		check(w, " variable " + s.v, 31, np == 1);
		setPath();
	}
	unsetenv("VOIKKO_DICTIONARY_PATH");
	for (int np = 0; np < 2; np++) if (E().take()) { clear(); for (auto & d : v) lay(d); vector<Dict> w; for (auto d : v) if (d.place == 4) w.push_back(d); check(w, " no variable", 31, np); }
	return E().finish();
}
