// P01: answers are a function of the question and the options in force.
// Every operation sequence up to a depth is run on one handle; the last answer is compared with the answer of
// a handle opened afresh and given only the options in force.
#include "api.hpp"
using namespace mc;
struct Op { int type; int a = 0, b = 0; wstring w; size_t len = 0, start = 0; int skip = 0; }; // 0 bool option, 1 int option, 2 query
static string showOp(const Op & o) {
	if (o.type == 0) return "bool(" + num(o.a) + "," + num(o.b) + ")";
	if (o.type == 1) return "int(" + num(o.a) + "," + num(o.b) + ")";
	return string(api::kindName(o.a)) + "(" + show(o.w) + (o.a == api::GRAMMAR_AT ? "," + num(o.len) + "," + num(o.start) + "," + num(o.skip) : "") + ")";
}
typedef std::map<std::pair<int, int>, int> Config; // (type, option) -> value
static string root, lang;
static std::map<string, string> memo; // fresh answers
static string ask(VoikkoHandle * h, const Op & o) { return api::query(h, o.a, o.w, o.len, o.start, o.skip); }
static const std::set<int> BOOLS = {0, 1, 3, 4, 6, 7, 8, 10, 11, 12, 13, 14, 15, 16}, INTS = {9, 17};
static Config configOf(const vector<Op> & ops) {
	Config c;
	for (auto & o : ops) if (o.type == 0 && BOOLS.count(o.a)) c[{0, o.a}] = o.b ? 1 : 0; else if (o.type == 1 && INTS.count(o.a)) c[{1, o.a}] = o.b;
	// the documented defaults need not be set
	static const std::map<int, int> dflt = {{3, 0}, {6, 1}, {7, 1}, {10, 1}, {15, 1}};
	for (auto i = c.begin(); i != c.end();) { auto d = dflt.find(i->first.second); int v = d == dflt.end() ? 0 : d->second; if (i->first.first == 0 && i->second == v) i = c.erase(i); else ++i; }
	return c;
}
static int setOption(VoikkoHandle * h, int type, int opt, int v) { return type == 0 ? voikkoSetBooleanOption(h, opt, v) : voikkoSetIntegerOption(h, opt, v); }
static const string & fresh(const Config & c, const Op & o) {
	string key = lang + "|";
	for (auto & x : c) { if (x.first.second == 17) continue; key += num(x.first.first) + ":" + num(x.first.second) + "=" + num(x.second) + ","; } // the cache size never matters
	key += showOp(o);
	auto i = memo.find(key);
	if (i != memo.end()) return i->second;
	if (memo.size() > 400000) memo.clear();
	Handle h(root, lang);
	for (auto & x : c) if (x.first.second != 17) setOption(h, x.first.first, x.first.second, x.second);
	return memo[key] = ask(h, o);
}
static void run(const vector<Op> & ops) {
	string d = lang + ":";
	for (auto & o : ops) d += " " + showOp(o);
	E().desc(d);
	Handle h(root, lang);
	string got;
	for (auto & o : ops) {
		E().step();
		if (o.type == 2) { got = ask(h, o); continue; }
		int want = o.type == 0 ? BOOLS.count(o.a) : INTS.count(o.a);
		int r = setOption(h, o.type, o.a, o.b);
		if (!!r != !!want) { E().fail(d, "setting " + showOp(o) + " returned " + num(r)); return; }
	}
	const string & want = fresh(configOf(ops), ops.back());
	E().state(hashStr(got + "#" + showOp(ops.back()) + lang));
	if (got != want) E().fail(d, "the last query answers \"" + got + "\", a fresh handle with the same options \"" + want + "\"");
}
// all sequences: up to depth-1 operations followed by a query
static void explore(const string & name, const string & l, const vector<Op> & ops, size_t depth) {
	E().startFamily(name);
	lang = l;
	vector<size_t> queries; for (size_t i = 0; i < ops.size(); i++) if (ops[i].type == 2) queries.push_back(i);
	sequences(ops.size(), 0, depth - 1, [&](const vector<size_t> & v) {
		for (size_t q : queries) {
			if (!E().take()) continue;
			vector<Op> s; for (size_t i : v) s.push_back(ops[i]);
			s.push_back(ops[q]);
			run(s);
		}
	});
}
static vector<Op> queries(int kind, const vector<wstring> & w) { vector<Op> r; for (auto & x : w) r.push_back(Op{2, kind, 0, x}); return r; }
static vector<Op> bools(const vector<int> & o) { vector<Op> r; for (int x : o) { r.push_back(Op{0, x, 1, L""}); r.push_back(Op{0, x, 0, L""}); } return r; }
static vector<Op> cat(std::initializer_list<vector<Op>> l) { vector<Op> r; for (auto & v : l) r.insert(r.end(), v.begin(), v.end()); return r; }

int main(int argc, char ** argv) {
	E().init(argc, argv);
	bool small = false; int part = -1;
	for (int i = 1; i < argc; i++) { if (!strcmp(argv[i], "--small")) small = true; if (!strcmp(argv[i], "--part")) part = atoi(argv[i + 1]); }
	(void) part;
	size_t T = E().thorough ? 2 : 1;
	root = scratch("p01");
	auto words = api::finnishWords();
	// words of one length that share a cache slot, some of them names
	for (auto e : {"[Lee][Xp]ih[X]ih[Sn][Ny]", "[Ln][Xp]ja[X]na[Sn][Ny]", "[Lep][Xp]aho[X]aho[Sn][Ny]", "[Ln][Xp]a[X]a[Sn][Ny]", "[Lee][Xp]i[X]i[Sn][Ny]", "[Lee][Xp]h[X]h[Sn][Ny]", "[Ln][Xp]suku[X]suku[Bh][Bc][Ln][Xp]puu[X]puu[Ivj][Sn][Ny]", "[La][Xp]aa.[X]aa.[Sn][Ny]"}) words.push_back(e);
	api::finnish(root, "hist", words);
	api::plain(root, "wt", "sv");
	const string FI = "fi-x-hist", SV = "sv";
	using namespace api;

	// two-letter words all over the cache slots (37*c1+c2 mod 32 collides for many)
	vector<wstring> pair2;
	for (wchar_t a : wstring(L"aihn")) for (wchar_t b : wstring(L"abhiq.")) pair2.push_back(wstring{a, b});
	explore("cache slots", FI, cat({queries(SPELL, pair2), queries(SPELL, {L"a", L"i", L"h", L"q", L"x", L"Ih", L"IH", L"AA", L"Aa"}), {Op{1, 17, -1}, Op{1, 17, 0}, Op{1, 17, 1}}}), small ? 2 : 3 + (E().thorough ? 1 : 0));
	explore("spelling options", FI, cat({bools({0, 1, 3, 6, 7, 10, 11, 12}), {Op{1, 17, -1}, Op{1, 17, 2}}, queries(SPELL, {L"aa", L"Aa", L"AA", L"aa.", L"matti", L"Matti", L"MATTI", L"autotie", L"auto-tie", L"linja-auto", L"linjaauto", L"x2", L"XX", L"a-b", L"\u00ad", L".", L"aA", L"esim", L"puu", L"aa-ab"})}), small ? 2 : 3 + T);
	{
		vector<Op> o = bools({0, 11, 12}); o.push_back(Op{1, 17, 3}); o.push_back(Op{1, 17, -1});
		explore("spelling options deep", FI, cat({o, queries(SPELL, {L"aa", L"Aa.", L"auto-tie", L"matti", L"puu", L"linja-auto"})}), small ? 2 : 4 + T);
	}
	{ // a paragraph, one that begins like it, and the same paragraph in other ways
		vector<Op> q;
		wstring t = L"Kissa juoksee  nyt. koira syö";
		q.push_back(Op{2, GRAMMAR, 0, t});
		for (size_t len : {(size_t) 0, (size_t) 13, (size_t) 19}) for (size_t start : {0u, 14u}) for (int skip : {0, 1}) q.push_back(Op{2, GRAMMAR_AT, 0, t, len, start, skip});
		q.push_back(Op{2, GRAMMAR, 0, L"Kissa juoksee"}); q.push_back(Op{2, GRAMMAR, 0, L"kisaa"}); q.push_back(Op{2, GRAMMAR, 0, L"\u2022 kissa"});
		explore("grammar", FI, cat({bools({0, 3, 13, 14, 16}), q}), small ? 2 : 3 + T);
		explore("grammar deep", FI, cat({bools({13, 14, 16}), {q[0], q[1], q[5], q[13], q[14]}}), small ? 2 : 5);
	}
	explore("hyphenation", FI, cat({bools({0, 4, 15}), {Op{1, 9, 2}, Op{1, 9, 5}, Op{1, 9, 0}}, queries(HYPHENS, {L"autotie", L"tuntematon", L"linja-auto", L"aa.", L"kissa", L"valtioopin"}), queries(INSERT, {L"autotie", L"linja-auto"})}), small ? 2 : 4 + T);
	explore("suggestions", FI, cat({bools({0, 8, 6, 11}), {Op{1, 17, -1}}, queries(SUGGEST, {L"kiss", L"k0ira", L"Kisa.", L"tlo", L"aab", L"AUTOTEI", L"kissakoira"}), queries(SPELL, {L"kiss", L"talo"})}), small ? 2 : 3 + T);
	{
		wstring longw; for (int i = 0; i < 90; i++) longw += L"auto";
		explore("analysis", FI, cat({queries(ANALYZE, {L"kissa", L"autotie", L"autoti", L"linja-auto", L"Turun", L"\u00e5\u00e5", L"\U0001F600", longw, L"\u00ad", L"esim.", L"a\u0308iti"}), queries(SPELL, {L"kissa", longw}), queries(HYPHENS, {L"autotie"}), bools({0, 8})}), small ? 2 : 3 + T);
	}
	explore("tokens and sentences", FI, cat({bools({0, 3, 14}), queries(TOKENS, {L"aa. B", L"esim. aa.", L"http://a.b c"}), queries(SENTENCES, {L"Aa esim. B. ", L"Aa. B.", L"aa! \"a.\" B"}), queries(GRAMMAR, {L"Aa. B.", L"esim. aa."}), queries(SPELL, {L"aa."})}), small ? 2 : 4 + T);
	explore("weighted", SV, cat({bools({0, 6, 7, 8}), {Op{1, 17, 0}, Op{1, 17, -1}}, queries(SPELL, {L"ab", L"Ab", L"bo", L"Bo", L"xy"}), queries(SUGGEST, {L"aa", L"bb", L"abab", L"kob", L"xy", L"Bb"}), queries(ANALYZE, {L"abba", L"abb"}), queries(HYPHENS, {L"abba"})}), small ? 2 : 3 + T);
	{ // archives of the HFST library, in a folder of their own
		string keep = root; root = scratch("p01h"); api::hfst(root, "zz", "zz");
		explore("archive", "zz", cat({bools({0, 6, 7, 8}), {Op{1, 17, 0}, Op{1, 17, -1}}, queries(SPELL, {L"ab", L"Ab", L"bo", L"Bo", L"xy", L"ab."}), queries(SUGGEST, {L"aa", L"bb", L"abab", L"kob", L"xy", L"Bb", L"aa."}), queries(HYPHENS, {L"abba"}), queries(TOKENS, {L"ab. B"})}), small ? 2 : 3);
		root = keep;
	}
	for (auto & l : {FI, SV}) { // everything with everything
		auto w = l == FI ? vector<wstring>{L"Kissa juoksee ja.", L"kisaa", L"aa."} : vector<wstring>{L"ab", L"abb."};
		vector<Op> q; for (int k = 0; k < api::GRAMMAR_AT; k++) for (auto & x : w) q.push_back(Op{2, k, 0, x});
		explore("all kinds " + l, l, cat({bools({0, 8, 11, 13}), {Op{1, 17, -1}, Op{1, 9, 4}}, q}), small ? 2 : 3);
	}
	// a full cache: words of every length for every slot
	E().startFamily("saturated cache");
	for (int assign = 0; assign < 2; assign++) {
		vector<string> entries; vector<wstring> list; int n = 0;
		string tail = "tuvwxyztu";
		for (size_t len = 1; len <= 11; len++) for (char a = 'a'; a <= 'z'; a++) for (char b = 'a'; b <= (len > 1 ? 'z' : 'a'); b++, n++) {
			string w = string(1, a) + (len > 1 ? string(1, b) : "") + (len > 2 ? tail.substr(0, len - 2) : "");
			if ((n + assign) % 3 == 0) entries.push_back("[Ln]" + w + "[Sn][Ny]");
			else if ((n + assign) % 3 == 1) entries.push_back("[Lee]" + w + "[Sn][Ny]");
			list.push_back(wstring(w.begin(), w.end()));
		}
		string r2 = scratch("p01c" + num(assign));
		bool made = false;
		for (int size = -1; size <= (small ? 0 : 5); size++) for (int order = 0; order < 4; order++) {
			if (!E().take()) continue;
			if (!made) { api::finnish(r2, "cache", entries); made = true; }
			E().desc("every word of length 1 to 11 ending in " + utf8(list.back()) + ", assignment " + num(assign) + ", cache size " + num(size) + ", order " + num(order));
			Handle h(r2, "fi");
			voikkoSetIntegerOption(h, VOIKKO_SPELLER_CACHE_SIZE, size);
			size_t k = list.size();
			for (int round = 0; round < 3; round++) for (size_t i = 0; i < k; i++) {
				size_t j = order == 0 ? i : order == 1 ? k - 1 - i : order == 2 ? (i * 677) % k : (i * 2731) % k;
				int kind = ((int) j + assign) % 3; // 0 noun, 1 name, 2 unknown
				wstring w = list[j], c = w; c[0] -= 32;
				bool lo = voikkoSpellUcs4(h, w.c_str()) == VOIKKO_SPELL_OK, up = voikkoSpellUcs4(h, c.c_str()) == VOIKKO_SPELL_OK;
				E().step(2);
				if (lo != (kind == 0) || up != (kind != 2)) { E().fail((const char *) E().sh->desc, show(w) + " in round " + num(round) + " is " + (lo ? "accepted" : "rejected") + ", capitalised " + (up ? "accepted" : "rejected")); round = 3; break; }
			}
		}
	}
	// refused settings change nothing
	for (auto & l : {FI, SV}) {
		vector<Op> o;
		for (int opt = -3; opt < 45; opt++) for (int v : {-1, 0, 1, 2}) {
			if (!BOOLS.count(opt)) o.push_back(Op{0, opt, v, L""});
			if (!INTS.count(opt)) o.push_back(Op{1, opt, v, L""});
		}
		for (int opt : {1000, 0x10000, -0x7fffffff, 0x7fffffff}) for (int t : {0, 1}) o.push_back(Op{t, opt, 1, L""});
		vector<Op> q; for (int k = 0; k < api::GRAMMAR_AT; k++) for (auto & x : vector<wstring>{L"aa. kissa  Auto-tie", L"k0ira", L"auto-tie", L"aa.", L"abba", L"MATTI2"}) q.push_back(Op{2, k, 0, x});
		E().startFamily("refused " + l); lang = l;
		for (auto & x : o) for (auto & y : q) if (E().take()) run({x, y});
		for (auto & x : o) for (auto & b : bools({0, 1, 3, 4, 6, 7, 8, 10, 11, 12, 13, 14, 15, 16})) for (auto & y : {q[0], q[6 * 2 + 2], q[6 + 1], q[7 * 6]}) if (!small && E().take()) run({b, x, y});
		E().startFamily("every value " + l); // any value is a truth value, each option only acts on itself
		for (int opt : BOOLS) for (int v : {-2, -1, 0, 1, 2, 256, 65536}) for (auto & y : q) if (E().take()) run({Op{0, opt, v, L""}, y});
		for (int opt : BOOLS) for (int v : {0, 1}) for (int opt2 : BOOLS) for (int v2 : {0, 1}) for (auto & y : q) if (!small && E().take()) run({Op{0, opt, v, L""}, Op{0, opt2, v2, L""}, y});
	}
	return E().finish();
}
