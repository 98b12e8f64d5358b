// P07: analyses of a Finnish dictionary compared with the meaning of the lexicon markup.
#include "common.hpp"
#include "ref_finnish.hpp"
using namespace mc;
static string root;
static bool small = false;
typedef std::map<string, wstring> R;
static string showR(const R & r) { string s = "{"; for (auto & p : r) s += p.first + "=" + utf8(p.second) + " "; return s + "}"; }
static const char * ENUM[] = {"CLASS", "NUMBER", "COMPARISON", "FOCUS", "TENSE", "SIJAMUOTO", "MOOD", "PERSON", "PARTICIPLE", "NEGATIVE", "POSSESSIVE", "KYSYMYSLIITE", "MALAGA_VAPAA_JALKIOSA", "POSSIBLE_GEOGRAPHICAL_NAME", "REQUIRE_FOLLOWING_VERB"};
static R readingOf(voikko_mor_analysis * a, string & bad) {
	R r;
	const char ** keys = voikko_mor_analysis_keys(a);
	for (const char ** k = keys; k && *k; k++) {
		const wchar_t * v = voikko_mor_analysis_value_ucs4(a, *k);
		char * c = voikko_mor_analysis_value_cstr(a, *k);
		if (!v) { bad = string("listed attribute without value: ") + *k; continue; }
		if (!c || utf8(v) != c) bad = string("byte and wide values of the attribute differ: ") + *k;
		voikko_free_mor_analysis_value_cstr(c);
		if (r.count(*k)) bad = string("attribute listed twice: ") + *k;
		r[*k] = v;
	}
	return r;
}
static void checkEntries(const vector<string> & entries, const wstring & word, const string & d) {
	string f = root + "/5/mor-n/mor.vfst";
	unlink(f.c_str());
	writeFile(f, vf::Writer::write(vf::finnishLexicon(entries), false, false, {"z", "[Ln]"}));
	Handle h(root, "fi-x-n");
	vector<R> want; size_t raw = 0;
	for (auto & e : entries) {
		fi::Syms s = fi::syms(e);
		wstring sf = fi::surface(s); for (auto & c : sf) c = ref::lower(c);
		if (sf != word) continue;
		raw++;
		for (auto & r : fi::readings(s)) want.push_back(r);
	}
	for (int form = 0; form < 3; form++) { // as is, wide; capitalised, wide; all upper case, bytes
		wstring w = word;
		if (form == 1 && !w.empty()) w[0] = ref::upper(w[0]);
		if (form == 2) for (auto & c : w) c = ref::upper(c);
		voikko_mor_analysis ** a = form == 2 ? voikkoAnalyzeWordCstr(h, utf8(w).c_str()) : voikkoAnalyzeWordUcs4(h, w.c_str());
		E().step();
		vector<R> got; string bad;
		if (!a && !word.empty()) bad = "no result";
		if (a) for (auto ** p = a; *p; p++) {
			got.push_back(readingOf(*p, bad));
			if (form == 0) for (auto k : ENUM) if (got.back().count(k)) {
				bool in = false; char ** vals = voikkoGetAttributeValues(h, k);
				for (char ** v = vals; v && *v; v++) if (utf8(got.back()[k]) == *v) in = true;
				voikkoFreeCstrArray(vals);
				if (!in) bad = string("value of ") + k + " is not among the advertised ones: " + utf8(got.back()[k]);
			}
		}
		voikko_free_mor_analysis(a);
		bool ok;
		std::multiset<R> g(got.begin(), got.end()), e(want.begin(), want.end());
		if (raw <= 99) ok = g == e;
		else ok = got.size() <= e.size() && std::includes(e.begin(), e.end(), g.begin(), g.end());
		if (raw > 99 && entries.size() == raw && want.size() == raw && got.size() != 99) ok = false; // plain entries: exactly the maximum
		if (!ok || !bad.empty()) {
			string m = bad + " got " + num(got.size()) + " expected " + num(want.size());
			for (size_t i = 0; i < std::max(got.size(), want.size()) && i < 3; i++) {
				if (i < want.size() && (i >= got.size() || got[i] != want[i])) {
					m += "; expected " + showR(want[i]) + " got " + (i < got.size() ? showR(got[i]) : "nothing"); break;
				}
				else if (i >= want.size()) { m += "; unexpected " + showR(got[i]); break; }
			}
			E().fail(d + " as " + show(w), m); return;
		}
		if (form == 0) { string sig; for (auto & r : got) for (auto & p : r) if (p.first != "FSTOUTPUT" && p.first != "BASEFORM" && p.first.compare(0, 4, "WORD")) sig += p.first + utf8(p.second) + " "; E().state(hashStr(sig)); }
	}
}
static void one(const string & m) {
	if (!E().take()) return;
	E().desc(m);
	fi::Syms s = fi::syms(m);
	wstring w = fi::surface(s); for (auto & c : w) c = ref::lower(c);
	checkEntries({m}, w, m);
}
int main(int argc, char ** argv) {
	setlocale(LC_ALL, "C.UTF-8");
	E().init(argc, argv);
	for (int i = 1; i < argc; i++) if (!strcmp(argv[i], "--small")) small = true;
	bool th = E().thorough;
	root = scratch("fin");
	vf::dict(root, "n", "Language: fi-x-n\nDescription: n\nGrammar-Backend: null\n", {{"mor.vfst", ""}});
	vector<string> cls = {"[Ln]", "[Ll]", "[Lnl]", "[Lh]", "[Lee]", "[Les]", "[Lep]", "[Lem]", "[Lt]", "[La]", "[Ls]", "[Lu]", "[Lur]", "[Lr]", "[Lc]", "[Ld]", "[Lk]", "[Lp]"};
	vector<string> flags = {"", "[Ion]", "[Ica]", "[Ivj]", "[Isf]", "[Icu]", "[Ira]", "[Irm]", "[De]", "[Dg]"};
	vector<string> suf = {"[Sn]", "[Sg]", "[Sp]", "[Ses]", "[Str]", "[Sine]", "[Sela]", "[Sill]", "[Sade]", "[Sabl]", "[Sall]", "[Sab]", "[Sko]", "[Sin]", "[Ssti]", "[Sak]", "[Ny]", "[Nm]", "[P1]", "[P2]", "[P3]", "[P4]",
		"[Tn1]", "[Tn2]", "[Tn3]", "[Tn4]", "[Tn5]", "[Tt]", "[Te]", "[Tk]", "[Tm]", "[Ap]", "[Ai]", "[Fkin]", "[Fkaan]", "[Fko]", "[O1y]", "[O2y]", "[O1m]", "[O2m]", "[O3]", "[Cc]", "[Cs]", "[Et]", "[Ef]", "[Eb]",
		"[Rv]", "[Ra]", "[Ru]", "[Rt]", "[Rm]", "[Re]", "[Ll]", "[Ln]", "[Lnl]", "[Ls]", "[Bc]", "[Sxx]", "[Nq]", "[Tz]", "[Q]"};
	vector<string> bodies = {"ab", "[Xp]abc[X]ab", "[Xp]a=b[X]a", "[Xs]505[X][Xp]abc[X]ab", "[Xp]\xC3\xA4\x62[X]\xC3\xA4", "[Xp]ab[X]k", "[Xp]a[X]a[Xj]inen[X]ise"};
	auto nums = vector<string>{"5", "[Xp]kaksi[X]kahde", "12"};
	E().startFamily("class, flag, body, ending");
	for (auto & c : cls) for (auto & f : flags) for (auto & b : bodies) {
		if (c == "[Lu]" && (b.find("[Xs]") != string::npos || b.find('=') != string::npos)) continue; // numerals have neither
		one(c + f + b);
		for (auto & s : suf) for (auto & t : {string(""), string("a")}) { if (small && !t.empty()) continue; if (c == "[Lu]" && s == "[Bc]") continue; one(c + f + b + s + t); }
	}
	E().startFamily("pairs of endings");
	for (auto & c : cls) for (auto & s : suf) for (auto & t : suf) { if (small && c != "[Lt]" && c != "[Lnl]") continue; if (c == "[Lu]" && (s == "[Bc]" || t == "[Bc]")) continue; one(c + "[Xp]abc[X]ab" + s + "a" + t + "a"); }
	if (th) {
		E().startFamily("triples of endings");
		for (auto & c : cls) for (auto & s : suf) for (auto & t : suf) for (auto & u : suf) one(c + "[Xp]abc[X]ab" + s + t + "a" + u);
	}
	E().startFamily("numerals");
	for (auto & c : {string("[Lu]"), string("[Lur]")}) for (auto & n : nums) for (auto & n2 : {string(""), string("[Bc]5"), string("[Bc][Xp]sata[X]sada"), string("-"), string("-[Bc]"), string("[Bc]"), string("-[Bc]5"), string(":"), string("[Bh][Bc][Ln]ab"), string("-[Bh][Bc][Ll][Xp]vuotias[X]vuotia")})
		for (auto & s : {string(""), string("[Sn][Ny]"), string("[Sg][Ny]n"), string("[Ln]"), string("[Ll]"), string("[Sn]"), string("[X]")}) {
			if (s == "[X]" || (s.empty() && n2.find("[Bc]") != string::npos && n2.back() != ']')) continue; // a compound numeral always ends in its case tags
			one(c + n + n2 + s);
		}
	// compounds
	vector<string> part, bound = {"[Bh][Bc]", "-[Bh][Bc]", "-[Bc]", "[Bc]", "[Bm]", "-[Bh]"};
	vector<string> bod2 = {"a", "ai", "is", "[Xp]abi[X]ab", "k[Xp]is[X]is", "[Xp]a-b[X]a-b"};
	vector<string> pc = {"[Ln]", "[Lep]", "[Lnl]", "[Ll]", "[La]", "[Lp]", "[Lu]", "[Lt]"}, pf = {"", "[Ion]", "[Icu]", "[Dg]", "[Isf]", "[De]", "[Ica]", "[Ivj]"};
	if (small) { pc.resize(5); pf.resize(4); bod2 = {"ai", "[Xp]a-b[X]a-b"}; }
	for (auto & c : pc) for (auto & f : pf) for (auto & b : bod2) { if (f == "[De]" && b.find('-') != string::npos) continue; part.push_back(c + f + b); } // place name modifiers have no hyphen of their own
	E().startFamily("two-part compounds");
	for (size_t i = 0; i < part.size(); i++) for (auto & b : bound) for (size_t j = 0; j < part.size(); j++) { one(part[i] + b + part[j] + "[Sn][Ny]"); }
	E().startFamily("leading and trailing hyphens");
	for (auto & p : part) { one("-[Bc]" + p); one(p + "-"); one(p + "-[Bc]"); one(p + "[Sg][Ny]-[Bh][Bc]"); one("-[Bh][Bc]" + p + "[Sn][Ny]"); one("-" + p + "[Sn][Ny]"); one(p + "[Bh]" + p + "[Ion][Sn][Ny]"); }
	E().startFamily("three-part compounds");
	{
		vector<string> q; vector<string> qf = {"", "[Ion]", "[Icu]", "[De]", "[Isf]", "[Dg]"}, qb = {"[Xp]abi[X]ab", "ai"};
		if (!th) qb.resize(1); if (small) qf.resize(2);
		for (auto & c : {"[Ln]", "[Lep]", "[Lnl]", "[La]", "[Lp]"}) for (auto & f : qf) for (auto & b : qb) q.push_back(c + f + b);
		vector<string> bo = {"[Bh][Bc]", "-[Bh][Bc]", "-[Bc]"};
		for (size_t i = 0; i < q.size(); i++) for (auto & b1 : bo) for (size_t j = 0; j < q.size(); j++) for (auto & b2 : bo) for (size_t k = 0; k < q.size(); k++) {
			one(q[i] + b1 + q[j] + b2 + q[k] + "[Sn][Ny]");
		}
	}
	E().startFamily("given structures");
	for (auto & c : {"[Ln]", "[Lep]", "[La]", "[Lur]", "[Lem]"}) for (auto & x : {"jj", "ip", "iipp", "jq", "i=p", "p-i", "qq", "pi"}) {
		size_t n = 0; for (const char * p = x; *p; p++) if (*p != '=') n++;
		string stem; for (const char * p = x; *p; p++) if (*p != '=') stem += *p == '-' ? '-' : 'e';
		for (auto & end : {"", ":n", "n", "nen", "-[Bh][Bc][Ln]oma", "-[Bc][Ln]oma", "[Bh][Bc][Ln]oma", "-"}) for (auto & f : {"", "[De]", "[Dg]", "[Ion]"}) {
			if (!strcmp(f, "[De]") && strchr(x, '-')) continue;
			one(string(c) + f + "[Xr]" + x + "[X][Xp]" + stem + "[X]" + stem + "[Sn][Ny]" + end);
			one(string(c) + f + "[Xr]" + x + "[X]" + stem + end);
		}
	}
	// several entries for one word, and the maximum
	E().startFamily("many readings");
	for (int n : {2, 5, 50, 97, 98, 99, 100, 101, 120, 150}) for (int kind = 0; kind < 3; kind++) {
		if (!E().take()) continue;
		vector<string> e;
		for (int i = 0; i < n; i++) {
			string id; for (char c : num(i)) id += c;
			string m = kind == 2 && i % 2 ? "[Ln]aa[Bh][Bc][Ln]a" : "[Ln][Xp]k" + id + "[X]aaa"; // the former lacks a hyphen: invalid, but counted
			if (kind == 1 && i % 3 == 0) m = "[Ln][Xp]k" + id + "[X]aaab";
			e.push_back(m);
		}
		E().desc("many readings " + num(n) + " kind " + num(kind));
		checkEntries(e, L"aaa", "many readings " + num(n) + " kind " + num(kind));
	}
	E().startFamily("sets of entries");
	{
		vector<string> pool = {"[Ln][Xp]ab[X]ab[Sn][Ny]", "[Lt]ab[Tt][Ap]", "[Lep]ab", "[Ln]a[Bh][Bc][Ln]b", "[Ln]a[Bh][Bc][Ln]a", "[La]ab", "[Ln]ab[Bh][Bc][Ln][Ion]ab", "[Lee]ab[Ln]", "[Ln]a", "[Ls]ab"};
		for (unsigned m = 0; m < 1u << pool.size(); m++) {
			if (small && __builtin_popcount(m) > 2) continue;
			vector<string> e; string d = "lexicon";
			for (size_t i = 0; i < pool.size(); i++) if (m >> i & 1) { e.push_back(pool[i]); d += " " + pool[i]; }
			for (auto & w : {L"ab", L"aa", L"abab", L"a", L"b"}) {
				if (!E().take()) continue;
				E().desc(d); checkEntries(e, w, d + " word");
			}
		}
	}
	E().startFamily("length limit");
	for (int n : {1, 100, 253, 254, 255, 256, 257, 300, 1000}) {
		if (!E().take()) continue;
		string m = "[Ln]" + string(n, 'k');
		E().desc("word of " + num(n) + " letters");
		vector<string> e = {m}; wstring w(n, L'k');
		string f = root + "/5/mor-n/mor.vfst"; unlink(f.c_str());
		writeFile(f, vf::Writer::write(vf::finnishLexicon(e), false));
		Handle h(root, "fi-x-n");
		voikko_mor_analysis ** a = voikkoAnalyzeWordUcs4(h, w.c_str()); E().step();
		size_t c = 0; if (a) while (a[c]) c++;
		if (!a || c != (n <= 255 ? 1u : 0u)) E().fail("word of " + num(n) + " letters", "analyses: " + num(c));
		else if (c == 1) { const wchar_t * st = voikko_mor_analysis_value_ucs4(a[0], "STRUCTURE"); if (wstring(L"=") + wstring(n, L'p') != st) E().fail("word of " + num(n) + " letters", "structure " + show(st)); }
		voikko_free_mor_analysis(a);
	}
	return E().finish();
}
