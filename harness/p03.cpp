// P03: suggestions
#include "common.hpp"
#include "ref_suggest.hpp"
#include <clocale>
using namespace mc;
static bool small = false;
struct Ctx { Handle h; sp::Lexicon l; string d; bool ocr = false; sp::Opt o; };
static bool acceptable(const sp::Lexicon & l, const wstring & s, const sp::Opt & o) {
	size_t sp = s.find(L' ');
	if (sp == wstring::npos) return sp::accepted(l, s, o);
	wstring a = s.substr(0, sp), b = s.substr(sp + 1);
	return (sp::accepted(l, a, o) || (a.size() > 1 && a.back() == L'.' && sp::accepted(l, a.substr(0, a.size() - 1), o))) && sp::accepted(l, b, o);
}
static bool query(Ctx & c, const wstring & word, bool bytes) {
	string id = c.d + " word " + show(word) + (c.ocr ? " ocr" : "") + c.o.show();
	wchar_t ** p = voikkoSuggestUcs4(c.h, word.c_str()); E().step();
	vector<wstring> got = toVec(p);
	voikko_free_suggest_ucs4(p);
	auto bad = [&](const string & m) { E().fail(id, m + "; suggestions " + showList(got)); return false; };
	wstring w = ref::normalise(word);
	std::set<wstring> want;
	bool dot = false;
	if (word.size() <= 1 || word.size() > 255 || w.size() <= 1 || (c.o.dot && w.size() == 2)) ;
	else { if (c.o.dot && w.back() == L'.') { w.pop_back(); dot = true; } want = sg::expected(c.l, w, c.ocr); }
	if (got.size() > 5) return bad("more than five suggestions");
	std::set<wstring> seen(got.begin(), got.end()), norm;
	if (seen.size() != got.size()) return bad("the same suggestion twice");
	sp::Case k = sp::caseOf(w);
	for (auto & g : got) {
		wstring s = sg::low(ref::normalise(g));
		if (dot) { if (s.empty() || s.back() != L'.') return bad("trailing dot is missing in " + show(g)); }
		auto has = [&](const wstring & x) { return want.count(x) || (dot && want.count(x.substr(0, x.size() - 1))); };
		if (!has(s)) return bad("not a dictionary word close to the input: " + show(g));
		norm.insert(s);
		if (c.o.firstUpper && !acceptable(c.l, g, c.o)) return bad("suggestion is not accepted: " + show(g));
		bool up = k == sp::FIRST || (k == sp::MIXED && ref::isUpper(w[0])) || (k == sp::UPPER && c.o.allUpper);
		if (up && ref::isLower(g[0]) && sp::caseOf(g) == sp::LOWER) return bad("initial upper case is lost in " + show(g));
		if (k == sp::UPPER && c.o.allUpper) for (wchar_t x : g) if (ref::isLower(x)) return bad("upper case is lost in " + show(g));
	}
	std::set<wstring> final; for (auto & x : want) final.insert(dot && x.back() != L'.' ? x + L"." : x);
	if (want.size() <= 5 ? norm != final : final.size() == want.size() ? norm.size() != 5 : norm.empty()) { string m = "expected"; for (auto & x : want) m += " " + show(x); return bad(m); }
	if (got.empty() && p) return bad("empty list instead of none");
	if (bytes) {
		string u = utf8(word);
		char ** q = voikkoSuggestCstr(c.h, u.c_str()); E().step();
		vector<string> gb = toVec(q), wb; for (auto & g : got) wb.push_back(utf8(g));
		voikkoFreeCstrArray(q);
		if (u.size() <= 255 && gb != wb) return bad("the byte interface gives " + showList(gb));
	}
	for (auto & g : got) E().state(hashStr(g));
	return true;
}
int main(int argc, char ** argv) {
	setlocale(LC_ALL, "C.UTF-8");
	E().init(argc, argv);
	for (int i = 1; i < argc; i++) if (!strcmp(argv[i], "--small")) small = true;
	bool th = E().thorough;
	string root = scratch("sg");
	vector<string> extraSyms; for (wchar_t c : wstring(L"abcdefghijklmnopqrstuvwxyz\u00E4\u00F6\u00E5\u0161\u017E\u00E9\u00E2-'.,:0123456789+_")) extraSyms.push_back(utf8(wstring(1, c)));
	auto open = [&](Ctx & c, const vector<string> & e) {
		string f = root + "/5/mor-n/mor.vfst"; unlink(f.c_str());
		vf::dict(root, "n", "Language: fi-x-n\nDescription: n\nGrammar-Backend: null\n", {{"mor.vfst", vf::Writer::write(vf::finnishLexicon(e), false, false, extraSyms)}});
		c.h.open(root, "fi-x-n");
		c.d = "lexicon"; for (auto & x : e) c.d += " " + x;
		for (auto & x : e) c.l.add(x);
	};
	auto noun = [&](const wstring & w) { return "[Ln][Xp]" + utf8(w) + "[X]" + utf8(w) + "[Sn][Ny]"; };
	// every single-key variation of a set of words
	vector<string> single = {noun(L"kala"), noun(L"y\u00F6ty\u00F6"), "[Lep][Xp]Oulu[X]oulu[Sn][Ny]", "[La][Xr]jj[X][Xp]EU[X]eu[Sg][Ny]:n", "[La][Xp]esim.[X]esim.[Sn][Ny]", "[Ln]suo[Bh][Bc][Ln]aita[Sn][Ny]", "[Ln]maa-[Bh][Bc][Ln]ala[Sn][Ny]",
		noun(L"vaa'at"), "[Lem][Xp]Ala-Oja[X]ala-[Bm][Lem]oja[Sn][Ny]", noun(L"\u017Eilla"), noun(L"banaani"), noun(L"as"), noun(L"kivihiili")};
	wstring alpha = L"abcdefghijklmnopqrstuvwxyz\u00E4\u00F6\u00E5\u0161\u017E\u00E9\u00E2-'.,:0123456789+_\u00AD A";
	if (small) { single.resize(3); alpha = L"as\u00E4o-.1_A"; }
	for (auto & e : single) {
		E().startFamily("one word, all slips: " + e);
		Ctx cs[2]; for (int i = 0; i < 2; i++) { open(cs[i], {e}); if (i) { voikkoSetBooleanOption(cs[i].h, VOIKKO_OPT_OCR_SUGGESTIONS, 1); cs[i].ocr = true; } }
		wstring base = cs[0].l.words.begin()->first;
		auto variants = [&](const wstring & s) {
			if (!E().take()) return;
			E().desc(cs[0].d + " word " + show(s));
			wstring up = s, fu = s; for (auto & c : up) c = ref::upper(c); if (!fu.empty()) fu[0] = ref::upper(fu[0]);
			for (auto & c : cs) for (auto & x : {s, up, fu}) if (!query(c, x, &x == &s || true)) return;
			for (unsigned b : {57, 56 - 16, 56 - 32 + 1}) { Ctx & c = cs[0]; c.o = sp::Opt::bits(b); sp::apply(c.h, c.o); for (auto & x : {s, up, fu, s + L".", up + L"."}) if (!query(c, x, false)) { c.o = sp::Opt::bits(56); sp::apply(c.h, c.o); return; } c.o = sp::Opt::bits(56); sp::apply(c.h, c.o); }
		};
		size_t n = base.size();
		std::set<wstring> done; auto v = [&](const wstring & s) { if (done.insert(s).second) variants(s); };
		v(base);
		for (size_t i = 0; i <= n; i++) {
			if (i < n) { wstring s = base; s.erase(i, 1); v(s); }
			for (wchar_t c : alpha) { v(base.substr(0, i) + c + base.substr(i)); if (i < n) { wstring s = base; s[i] = c; v(s); } if (i + 1 < n) { wstring s = base; s[i] = s[i + 1] = c; v(s); } }
			for (size_t j = i + 1; j < n; j++) { wstring s = base; std::swap(s[i], s[j]); v(s); }
			for (size_t len = 2; len <= 2 && i + len <= n; len++) v(base.substr(0, i + len) + base.substr(i));
		}
		for (size_t i = 0; i < n; i++) for (size_t j = i + 1; j < n; j++) for (auto & p : sg::pairs(sg::GLYPHS)) { if (small) break; wstring s = base; if (p.second == s[i]) s[i] = p.first; for (auto & q : sg::pairs(sg::GLYPHS)) if (q.second == base[j]) { wstring t = s; t[j] = q.first; if (t != base) v(t); } }
	}
	// every word of an alphabet against every other
	auto cross = [&](const wstring & al, size_t maxW, size_t maxIn, bool ocr) {
		E().startFamily("every word against every input over " + utf8(al));
		strings(chars(al.c_str()), 2, maxW, [&](const wstring & target) {
			if (!E().take()) return;
			if (target.front() == L'-' || target.back() == L'-' || target.find(L"--") != wstring::npos) return;
			Ctx c; E().desc("target " + show(target)); open(c, {noun(target)});
			if (ocr) { voikkoSetBooleanOption(c.h, VOIKKO_OPT_OCR_SUGGESTIONS, 1); c.ocr = true; }
			bool ok = true;
			strings(chars(al.c_str()), 2, maxIn, [&](const wstring & in) { if (ok) ok = query(c, in, false); });
		});
	};
	cross(L"as\u00E4", small ? 2 : th ? 5 : 4, small ? 3 : th ? 6 : 5, false);
	cross(L"ko\u00F6-", small ? 2 : 4, small ? 3 : 5, false);
	cross(L"il1o", small ? 2 : 4, small ? 3 : 5, false);
	cross(L"a\u00E4_o", small ? 2 : 4, small ? 2 : 3, true);
	cross(L"uvon", small ? 2 : 4, small ? 3 : 5, true);
	// lexicons with several words: limits, order of passes, splitting
	E().startFamily("lexicons of two and three words");
	{
		vector<string> pool = {noun(L"ta"), noun(L"tat"), noun(L"ata"), "[Lep][Xp]At[X]at[Sn][Ny]", "[La][Xp]ta.[X]ta.[Sn][Ny]", noun(L"t\u00E4"), noun(L"ra"), noun(L"sa"), "[Lep][Xp]Ta[X]ta[Sn][Ny]", "[Ln]ta[Bh][Bc][Ln]ra[Sn][Ny]", noun(L"da")};
		vector<wstring> in;
		strings(chars(L"tar.-"), 2, small ? 3 : th ? 5 : 4, [&](const wstring & w) { in.push_back(w); });
		strings({L"ta", L"Ta", L"TA", L"at", L"ata", L"-", L".", L"r\u00E4", L"sa", L"\u00AD"}, 1, small ? 2 : 3, [&](const wstring & w) { in.push_back(w); });
		for (size_t i = 0; i < pool.size(); i++) for (size_t j = i + 1; j < pool.size(); j++) for (size_t k = j; k < pool.size(); k++) {
			if (!th && k != j && !(i == 0 || j == 3)) continue;
			if (small && k != j) continue;
			if (!E().take()) continue;
			vector<string> e = {pool[i], pool[j]}; if (k != j) e.push_back(pool[k]);
			Ctx c; E().desc("pool " + num(i) + " " + num(j) + " " + num(k)); open(c, e);
			for (unsigned b : {56, 57}) { c.o = sp::Opt::bits(b); sp::apply(c.h, c.o); for (auto & w : in) if (!query(c, w, false)) break; }
		}
	}
	E().startFamily("many correct words");
	for (auto & al : {wstring(L"as"), wstring(L"iuo"), wstring(L"aes"), wstring(L"klgj")}) for (size_t len = 2; len <= 4; len++) {
		Ctx c; vector<string> e; strings(chars(al.c_str()), 2, len, [&](const wstring & w) { e.push_back(noun(w)); });
		bool opened = false;
		strings(chars((al + L"xA.").c_str()), 2, small ? 3 : th ? 5 : 4, [&](const wstring & w) { if (!E().take()) return; if (!opened) { open(c, e); opened = true; c.d = "all words over " + utf8(al) + " up to " + num(len); } E().desc(c.d + " word " + show(w)); query(c, w, true); });
	}
	E().startFamily("equivalent characters and lengths");
	{
		Ctx c; open(c, {noun(L"fifi"), noun(L"vaa'at"), noun(L"\u00E4\u00E4"), "[Ln]ta-[Bh][Bc][Ln]aa[Sn][Ny]", noun(L"\u00B0c")});
		strings({L"\uFB01", L"f", L"i", L"\u2019", L"va", L"a\u0308", L"a", L"\u2010", L"t", L"\u2103", L"."}, 1, small ? 3 : th ? 5 : 4, [&](const wstring & w) {
			if (!E().take()) return; E().desc(c.d + " word " + show(w));
			for (unsigned b : {56, 57}) { c.o = sp::Opt::bits(b); sp::apply(c.h, c.o); if (!query(c, w, true)) return; }
		});
		for (auto & u : {L"\uFB01", L"x", L"\u0308", L"-", L"\u00AD", L"_", L"."}) for (size_t n : {1, 2, 3, 254, 255, 256, 257, 1000}) {
			if (!E().take()) continue;
			wstring w; while (w.size() < n) w += u; E().desc("length " + show(w).substr(0, 300));
			for (int ocr = 0; ocr < 2; ocr++) { voikkoSetBooleanOption(c.h, VOIKKO_OPT_OCR_SUGGESTIONS, ocr); wchar_t ** p = voikkoSuggestUcs4(c.h, w.c_str()); E().step(); if (n > 255 && p) E().fail("length " + num(n), "suggestions for a word over the limit"); voikko_free_suggest_ucs4(p); }
			voikkoSetBooleanOption(c.h, VOIKKO_OPT_OCR_SUGGESTIONS, 0);
		}
	}
	return E().finish();
}
