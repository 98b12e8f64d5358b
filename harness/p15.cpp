// P15: threads with a handle each do not disturb each other, whatever the schedule; nor do handles used in turn.
#define SCHED_IMPL
#include "sched.hpp"
#include "api.hpp"
using namespace mc;
#ifdef __SANITIZE_THREAD__
static const bool TSAN = true;
#else
static const bool TSAN = false;
#endif
static string root;
// what a thread of its own does: side 0 and 1 use different dictionaries and arguments
static VoikkoHandle * fin[2], * pla[2], * hfs[2];
static VoikkoHandle * open(const string & lang) { const char * e = nullptr; VoikkoHandle * h = voikkoInit(&e, lang.c_str(), root.c_str()); return h; }
struct Op { const char * name; std::function<string(int)> f; };
static vector<Op> ops;
static const wchar_t * pick(int s, const wchar_t * a, const wchar_t * b) { return s ? b : a; }
static string listing() {
	string r; voikko_dict ** d = voikko_list_dicts(root.c_str());
	for (voikko_dict ** i = d; *i; i++) r += string(voikko_dict_language(*i)) + "-" + voikko_dict_script(*i) + "-" + voikko_dict_variant(*i) + "=" + voikko_dict_description(*i) + " ";
	voikko_free_dicts(d);
	return r;
}
static string langs(char ** l) { string r; for (char ** i = l; *i; i++) r += string(*i) + " "; voikkoFreeCstrArray(l); return r; }
static void makeOps() {
	auto q = [](const char * name, int kind, const wchar_t * a, const wchar_t * b) { ops.push_back({name, [=](int s) { return api::query(fin[s], kind, pick(s, a, b)); }}); };
	q("spell known", api::SPELL, L"kissa", L"mato");
	q("spell capitalised", api::SPELL, L"Turku", L"OULU");
	q("spell unknown", api::SPELL, L"kisa", L"matoo");
	q("tokens", api::TOKENS, L"ab 1,2-c.", L"d@e.fi x");
	q("sentences", api::SENTENCES, L"Ab c. De", L"x? Y (z)");
	q("analyze", api::ANALYZE, L"autotie", L"matokuja");
	q("hyphenate", api::HYPHENS, L"autotie", L"matokuja");
	q("hyphenate unknown", api::HYPHENS, L"aauioo", L"trapeza");
	q("insert hyphens", api::INSERT, L"autotie", L"matokuja");
	q("suggest", api::SUGGEST, L"kisa", L"mata");
	q("grammar", api::GRAMMAR, L"kisaa  ab.", L"Mato ,voi voi kuja.");
	ops.push_back({"option and spell", [](int s) { string r = num(voikkoSetBooleanOption(fin[s], VOIKKO_OPT_IGNORE_NUMBERS, s)); r += api::spell(fin[s], L"a1"); voikkoSetBooleanOption(fin[s], VOIKKO_OPT_IGNORE_NUMBERS, !s); return r + api::spell(fin[s], L"a1"); }});
	ops.push_back({"cached spell", [](int s) { string r = num(voikkoSetIntegerOption(fin[s], VOIKKO_SPELLER_CACHE_SIZE, 1)); for (int i = 0; i < 2; i++) for (auto w : {L"kissa", L"mato", L"kassi"}) r += api::spell(fin[s], w); voikkoSetIntegerOption(fin[s], VOIKKO_SPELLER_CACHE_SIZE, -1); return r; }});
	ops.push_back({"OCR suggestions", [](int s) { voikkoSetBooleanOption(fin[s], VOIKKO_OPT_OCR_SUGGESTIONS, 1); string r = api::suggest(fin[s], pick(s, L"k1ssa", L"rnato")); voikkoSetBooleanOption(fin[s], VOIKKO_OPT_OCR_SUGGESTIONS, 0); return r; }});
	ops.push_back({"plain spell", [](int s) { return api::spell(pla[s], pick(s, L"abba", L"baab")) + api::spell(pla[s], pick(s, L"Kod", L"KOD")); }});
	ops.push_back({"plain suggest", [](int s) { return api::suggest(pla[s], pick(s, L"aa", L"bb")); }});
	ops.push_back({"plain analyze", [](int s) { return api::analyze(pla[s], pick(s, L"abba", L"ba")); }});
	ops.push_back({"HFST spell", [](int s) { return api::spell(hfs[s], pick(s, L"abba", L"ba")) + api::spell(hfs[s], pick(s, L"Kod", L"KOD")); }});
	ops.push_back({"HFST suggest", [](int s) { return api::suggest(hfs[s], pick(s, L"aa", L"bb")); }});
	ops.push_back({"open and close", [](int s) { VoikkoHandle * h = open(s ? "fi-x-two" : "fi-x-one"); string r = h ? api::spell(h, pick(s, L"kissa", L"mato")) : "refused"; if (h) voikkoTerminate(h); return r; }});
	ops.push_back({"failed opening", [](int s) { const char * e = nullptr; VoikkoHandle * h = voikkoInit(&e, s ? "xx" : "fi-x-none", root.c_str()); return h ? string("opened") : string(e); }});
	ops.push_back({"list dictionaries", [](int s) { return listing() + langs(voikkoListSupportedSpellingLanguages(root.c_str())) + langs(voikkoListSupportedHyphenationLanguages(root.c_str())) + langs(voikkoListSupportedGrammarCheckingLanguages(root.c_str())); }});
}
static vector<string> alone[2];
static const int SEP = 1;
struct Side { int side; vector<int> prog; string result; };
static void body(void * p) { Side * x = (Side *) p; for (int o : x->prog) { x->result += ops[o].f(x->side); x->result += (char) SEP; } }
static sched::Outcome runPair(const vector<int> & a, const vector<int> & b, const vector<sched::Dev> & devs, bool fine) {
	return sched::run(devs, [&]() {
		Side s[2] = {{0, a, ""}, {1, b, ""}};
		sched::fine = fine;
		sched::begin();
		if (!a.empty()) sched::spawn(body, &s[0]);
		if (!b.empty()) sched::spawn(body, &s[1]);
		sched::waitAll(); sched::end();
		sched::put(s[0].result + "\x02" + s[1].result);
		_exit(0);
	});
}
static string progText(const vector<int> & p) { string r; for (int o : p) r += string(r.empty() ? "" : ", ") + ops[o].name; return r; }
static string verdict(const sched::Outcome & o, const vector<int> & a, const vector<int> & b) {
	if (o.deadlock) return "the threads wait for each other";
	if (TSAN && WIFEXITED(o.status) && WEXITSTATUS(o.status) == 66) return "data race";
	if (o.status) return sched::statusText(o.status);
	string want; for (int x : a) want += alone[0][x] + (char) SEP; want += "\x02"; for (int x : b) want += alone[1][x] + (char) SEP;
	if (o.out != want) return "answers " + show(o.out) + " but alone " + show(want);
	return "";
}
int main(int argc, char ** argv) {
	E().init(argc, argv);
	bool T = E().thorough;
	root = scratch("dicts");
	auto w = api::finnishWords();
	api::finnish(root, "one", w, api::rules());
	vector<string> two = {"[Ln][Xp]mato[X]mato[Sn][Ny]", "[Ln][Xp]kuja[X]kuja[Sn][Ny]", "[Ln][Xp]mato[X]mato[Bh][Bc][Ln][Xp]kuja[X]kuja[Sn][Ny]", "[Lep][Xp]oulu[X]oulu[Sn][Ny]", "[Lt][Ira][Xp]voida[X]voi[Tt][Ap][P3][Ny][Eb]", "[Ln][Xp]kassi[X]kassi[Sn][Ny]"};
	api::finnish(root, "two", two, {{"voi voi", "voivoi"}, {"kuja mato", "kujamato"}});
	api::plain(root, "pone", "aa"); api::plain(root, "ptwo", "bb");
	string zroot = scratch("archives"); api::hfst(zroot, "one", "yy"); api::hfst(zroot, "two", "zz");
	makeOps();
	{ const char * e = nullptr; hfs[0] = voikkoInit(&e, "yy", zroot.c_str()); hfs[1] = voikkoInit(&e, "zz", zroot.c_str()); }
	fin[0] = open("fi-x-one"); fin[1] = open("fi-x-two"); pla[0] = open("aa"); pla[1] = open("bb");
	if (!fin[0] || !fin[1] || !pla[0] || !pla[1] || !hfs[0] || !hfs[1]) { E().startFamily("setting up"); if (E().take()) E().fail("opening six dictionaries", "refused"); return E().finish(); }
	int N = (int) ops.size();
	vector<uint64_t> len(N);
	// what every operation answers when nothing else runs
	E().startFamily("alone");
	for (int s = 0; s < 2; s++) for (int o = 0; o < N; o++) {
		sched::Outcome r = s ? runPair({}, {o}, {}, !TSAN) : runPair({o}, {}, {}, !TSAN);
		string t = r.out; t = s ? t.substr(std::min<size_t>(1, t.size())) : t.substr(0, t.find('\x02'));
		if (!t.empty()) t.pop_back();
		alone[s].push_back(t); len[o] = std::max(len[o], r.points);
		if (E().take()) { E().desc(ops[o].name); E().step(); if (r.status) E().fail(string("single thread: ") + ops[o].name, sched::statusText(r.status)); }
		E().endCase();
	}
	if (E().shard == 0) for (int o = 0; o < N; o++) E().sample(string(ops[o].name) + ": " + num(len[o]) + " scheduling points, answers " + show(alone[0][o]).substr(0, 80));
	// one after the other, without anything that orders the threads: every pair of operations (the race detector judges these)
	E().startFamily("pairs of operations in turn");
	for (int a = 0; a < N; a++) for (int b = 0; b < N; b++) for (int order = 0; order < 2; order++) {
		if (!E().take()) continue;
		string d = string("thread 1: ") + ops[a].name + "; thread 2: " + ops[b].name + (order ? "; thread 2 first" : "");
		E().desc(d);
		vector<sched::Dev> dv; if (order) dv.push_back({0, 1});
		sched::Outcome o = runPair({a}, {b}, dv, false);
		E().step(2); E().state(hashStr(d));
		string m = verdict(o, {a}, {b});
		if (!m.empty()) E().fail(d, m);
	}
	if (TSAN) return E().finish();
	// handles used in turn in one thread
	E().startFamily("handles in turn in one thread");
	sequences(2 * N, 1, T ? 3 : 2, [&](const vector<size_t> & v) {
		if (!E().take()) return;
		string d; for (size_t x : v) d += string(d.empty() ? "" : "; ") + "handle " + num(x % 2 + 1) + " " + ops[x / 2].name;
		E().desc(d);
		sched::Outcome o = sched::run({}, [&]() { string r; for (size_t x : v) r += ops[x / 2].f(x % 2) + "\x01"; sched::put(r); _exit(0); });
		E().step(v.size());
		string want; for (size_t x : v) want += alone[x % 2][x / 2] + "\x01";
		if (o.status) E().fail(d, sched::statusText(o.status));
		else if (o.out != want) E().fail(d, "answers " + show(o.out) + " but alone " + show(want));
	});
	// one preemption at every basic block
	auto pairAll = [&](int a, int b, uint64_t stride, int second) {
		for (int order = 0; order < 2; order++) {
			vector<sched::Dev> base; if (order) base.push_back({0, 1});
			sched::Outcome first = runPair({a}, {b}, base, true);
			vector<uint64_t> pts;
			for (uint64_t i = 1; i < first.alts.size(); i++) if (!(first.alts[i] & 64) && (first.alts[i] & 63)) pts.push_back(i);
			const size_t CHUNK = 64;
			for (size_t c = 0; c < pts.size(); c += CHUNK * stride) {
				if (!E().take()) continue;
				string d = string("thread 1: ") + ops[a].name + "; thread 2: " + ops[b].name + (order ? "; thread 2" : "; thread 1") + " preempted at its blocks from " + num(pts[c]);
				E().desc(d);
				bool bad = false;
				for (size_t k = c; !bad && k < c + CHUNK * stride && k < pts.size(); k += stride) {
					auto dv = base; dv.push_back({pts[k], 1});
					sched::Outcome o = runPair({a}, {b}, dv, true);
					E().step(); E().sh->progress++; E().state(hashStr(d, pts[k]));
					string m = verdict(o, {a}, {b});
					if (!m.empty()) { E().fail(d, "schedule" + sched::text(dv) + ": " + m); bad = true; }
					if (second && !bad) for (uint64_t j = pts[k] + 1; !bad && j < o.alts.size(); j += second) if (!(o.alts[j] & 64) && (o.alts[j] & 63)) {
						auto e = dv; e.push_back({j, 1});
						sched::Outcome p = runPair({a}, {b}, e, true);
						E().step(); E().sh->progress++;
						m = verdict(p, {a}, {b});
						if (!m.empty()) { E().fail(d, "schedule" + sched::text(e) + ": " + m); bad = true; }
					}
				}
			}
		}
	};
	E().startFamily("one preemption, same operation in both threads");
	for (int a = 0; a < N; a++) pairAll(a, a, T ? 1 : 1 + len[a] / 12000, 0);
	E().startFamily("one preemption, different operations");
	for (int a = 0; a < N; a++) for (int b = 0; b < N; b++) if (a != b && len[a] + len[b] < (T ? 60000u : 1500u)) pairAll(a, b, 1, 0);
	if (T) {
		E().startFamily("two preemptions");
		for (int a = 0; a < N; a++) for (int b = 0; b < N; b++) if (len[a] + len[b] < 900) pairAll(a, b, 1, 1);
	}
	return E().finish();
}
