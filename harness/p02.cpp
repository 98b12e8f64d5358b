// P02: spelling verdict
#include "common.hpp"
#include "ref_spell.hpp"
#include <clocale>
using namespace mc;
static bool small = false;
static bool one(VoikkoHandle * h, const sp::Lexicon & l, const wstring & w, const sp::Opt & o, const string & d, bool bytes) {
	bool want = sp::accepted(l, w, o);
	int got = voikkoSpellUcs4(h, w.c_str()); E().step();
	int expect = want ? VOIKKO_SPELL_OK : VOIKKO_SPELL_FAILED;
	auto bad = [&](int g, const char * how) { E().fail(d + " word " + show(w) + o.show() + how, string("expected ") + (want ? "accepted" : "misspelled") + " got " + num(g)); return false; };
	if (got != expect) return bad(got, "");
	if (bytes) {
		string u = utf8(w);
		if (u.size() <= 255) { got = voikkoSpellCstr(h, u.c_str()); E().step(); if (got != expect) return bad(got, " (bytes)"); }
	}
	E().state(hashStr(w) * 2 + want);
	return true;
}
// option sets that can matter for the word; the others are left at both values only for short words
static bool relevant(const wstring & w, unsigned b, bool full) {
	if (full) return true;
	sp::Opt o = sp::Opt::bits(b);
	bool digit = false, upper = false, hyphen = false;
	for (wchar_t c : w) { if (c >= L'0' && c <= L'9') digit = true; if (ref::isUpper(c)) upper = true; if (c == L'-' || c == 0x2010 || c == 0x2011) hyphen = true; }
	if (o.dot && w.back() != L'.') return false;
	if (o.numbers && !digit) return false;
	if (!upper && (o.upper || !o.firstUpper || !o.allUpper)) return false;
	if (!o.nonwords && w.find(L'@') == wstring::npos && w.find(L'/') == wstring::npos && w.find(L"www") == wstring::npos) return false;
	if (o.extra && !hyphen) return false;
	return true;
}
static const vector<string> POOL = {
	"[Ln][Xp]ta[X]ta[Sn][Ny]",
	"[Lep][Xp]At[X]at[Sn][Ny]",
	"[Ln][Xp]tat[X]tat[Sn][Ny]",
	"[Ln][Ivj][Xp]ata[X]ata[Sn][Ny]",
	"[La][Xr]jj[X][Xp]AK[X]ak[Sg][Ny]:a",
	"[La][Xp]tk.[X]tk.[Sn][Ny]",
	"[La][Xr]jq[X][Xp]Ka[X]ka[Sn][Ny]",
	"[Ln][Xp]tat[X]tat[Bh][Bc][Ln][Xp]ata[X]ata[Sn][Ny]",
	"[Ln][Xp]ta[X]ta[Bh][Bc][Ln][Xp]tata[X]tata[Sn][Ny]",
	"[Ln][Xp]ta[X]ta-[Bh][Bc][Ln][Xp]ata[X]ata[Sn][Ny]",
	"[Lp]ta[Bh][Bc][Ln][Xp]kat[X]kat[Sn][Ny]",
	"[Lp]tak[Bh][Bc][Ln][Xp]at[X]at[Sn][Ny]",
	"[Lep][Xp]Tak[X]tak[Bh][Bc][Ln]at[Sn][Ny]",
	"[Lem][Xp]At-Ta[X]at-[Bm][Lem]ta[Sn][Ny]",
	"-[Bc][Ln][Ivj][Xp]ka[X]ka[Sn][Ny]",
	"-[Bc][Ln][Xp]kk[X]kk-",
	"[Lu]1[Sn][Ny]",
	"[Lu]1-[Bh][Bc][Ln]ta[Sn][Ny]",
	"[Ln][Xp]taa[X]taa[Sn][Ny]",
	"[Lee][Xp]Taa[X]taa[Sn][Ny]",
	"[Lh]a[Sn][Ny]",
	"-[Bc][Ln][Xp]11[X]11-",
	"-[Bc][Lep][Xp]Kt[X]kt-",
	"[Ln][Xp]tA[X]ta[Sn][Ny]",
};
int main(int argc, char ** argv) {
	setlocale(LC_ALL, "C.UTF-8");
	E().init(argc, argv);
	for (int i = 1; i < argc; i++) if (!strcmp(argv[i], "--small")) small = true;
	bool th = E().thorough;
	string root = scratch("sp");
	auto lex = [&](const vector<string> & e) { sp::Lexicon l; for (auto & x : e) l.add(x); return l; };
	vector<string> extraSyms = {"z", "[Ln]", ".", "-", "'", "t", "a", "k", ":", "1"};
	auto put = [&](const vector<string> & e, const string & extra) {
		string f = root + "/5/mor-n/mor.vfst"; unlink(f.c_str());
		vf::dict(root, "n", "Language: fi-x-n\nDescription: n\nGrammar-Backend: null\n" + extra, {{"mor.vfst", vf::Writer::write(vf::finnishLexicon(e), false, false, extraSyms)}});
	};
	// one rich lexicon: every word under every option combination
	auto rich = [&](const string & name, const string & extra, sp::Backend be) {
		put(POOL, extra);
		sp::Lexicon l = lex(POOL); l.backend = be;
		vector<Handle *> hs; for (unsigned b = 0; b < 256; b++) { hs.push_back(new Handle(root, "fi-x-n")); sp::apply(*hs.back(), sp::Opt::bits(b)); }
		auto run = [&](const wstring & w, bool full) {
			if (!E().take()) return;
			E().desc(name + " " + show(w));
			for (unsigned b = 0; b < 256; b++) if (relevant(w, b, full)) if (!one(*hs[b], l, w, sp::Opt::bits(b), name, full)) return;
		};
		E().startFamily(name + ": all words");
		strings(chars(L"atkAT-.\u00AD1"), 0, small ? 3 : be == sp::TWEAKS ? 5 : 4, [&](const wstring & w) { run(w, w.size() <= (small ? 2 : 4)); });
		E().startFamily(name + ": longer words");
		strings(chars(L"atk-."), 1, small ? 4 : be == sp::TWEAKS ? (th ? 9 : 8) : 6, [&](const wstring & w) { run(w, false); });
		E().startFamily(name + ": soft hyphens");
		strings({L"a", L"ta", L"tat", L"-", L"\u00AD", L"k", L"at"}, 1, small ? 3 : be == sp::TWEAKS ? (th ? 8 : 6) : 4, [&](const wstring & w) { run(w, false); });
		E().startFamily(name + ": pieces with case");
		strings({L"ta", L"Ta", L"TA", L"tat", L"ata", L"At", L"AT", L"-", L"tak", L"Tak", L":", L"ak", L"AK", L"."}, 1, small ? 2 : be == sp::TWEAKS ? (th ? 6 : 4) : 3, [&](const wstring & w) { run(w, w.size() < 8); });
		E().startFamily(name + ": addresses, digits, equivalents");
		strings({L"ta", L"www.", L"@", L"//", L"/", L".", L"1", L"TA", L"\u2019", L"\u2010", L"\u0308", L"a"}, 1, small ? 2 : be == sp::TWEAKS ? (th ? 6 : 5) : 3, [&](const wstring & w) { run(w, false); });
		E().startFamily(name + ": every character");
		if (!small) for (wchar_t c = 1; c < 0x600; c++) for (auto & p : {L"", L"t", L"ta"}) for (auto & q : {L"", L"ta", L"."}) run(wstring(p) + c + q, false);
		E().startFamily(name + ": lengths");
		for (size_t n : {250, 251, 252, 253, 254, 255, 256, 257, 300, 1000}) for (auto & u : {L"ta", L"TA", L"t-", L"1", L"a@a.", L"a\u00AD", L"a\u0308"}) { wstring w; while (w.size() < n) w += u; w.resize(n); run(w, false); }
		for (auto * h : hs) delete h;
	};
	rich("Finnish rules", "", sp::TWEAKS);
	rich("analyser only", "Speller-Backend: AnalyzerToSpellerAdapter(currentAnalyzer)\n", sp::PLAIN);
	// fixed spellers
	for (int ok = 0; ok < 2; ok++) {
		put(POOL, ok ? "Speller-Backend: AllOk\n" : "Speller-Backend: AllError\n");
		Handle h(root, "fi-x-n");
		E().startFamily(ok ? "all words correct" : "no word correct");
		strings(chars(L"aA-.1@"), 1, 5, [&](const wstring & w) {
			if (!E().take()) return;
			int want = ok || hy::addressLike(w) ? VOIKKO_SPELL_OK : VOIKKO_SPELL_FAILED; int got = voikkoSpellUcs4(h, w.c_str()); E().step();
			if (got != want) E().fail(string(ok ? "AllOk " : "AllError ") + show(w), "got " + num(got));
		});
	}
	// words stored in a weighted acceptor
	{
		static const vector<wstring> pool = {L"ta", L"Ta", L"at.", L"-ta-", L"t", L"tA", L"AT", L"ta-at", L"\u00E4t"};
		E().startFamily("word list acceptor");
		for (unsigned m = 1; m < 1u << pool.size(); m++) {
			if (!small && !th && __builtin_popcount(m) > 3) continue;
			if (small && __builtin_popcount(m) > 1) continue;
			if (!E().take()) continue;
			vf::Net n; sp::Lexicon l; l.backend = sp::EXACT; string d = "acceptor";
			for (size_t i = 0; i < pool.size(); i++) if (m >> i & 1) { vector<std::pair<string, string>> p; for (wchar_t c : pool[i]) p.push_back({utf8(wstring(1, c)), utf8(wstring(1, c))}); n.path(p); l.exact.insert(pool[i]); d += " " + utf8(pool[i]); }
			E().desc(d);
			string f = root + "/5/mor-n/spl.vfst"; unlink(f.c_str());
			vf::dict(root, "n", "Language: fi-x-n\nDescription: n\nMorphology-Backend: null\nSpeller-Backend: vfst\nSuggestion-Backend: null\nGrammar-Backend: null\n", {{"spl.vfst", vf::Writer::write(n, true, false, {"z", ".", "-", "t", "a", "A", "T"})}});
			Handle h(root, "fi-x-n");
			for (unsigned b : {32 + 16 + 8, 32 + 16 + 8 + 1, 32 + 8, 16 + 8, 32 + 16 + 8 + 128, 0, 128 + 1 + 4}) {
				sp::apply(h, sp::Opt::bits(b));
				bool stop = false;
				strings(chars(L"taAT-.\u00E4"), 1, small ? 3 : 4, [&](const wstring & w) { if (!stop && !one(h, l, w, sp::Opt::bits(b), d, false)) stop = true; });
				voikkoSetIntegerOption(h, VOIKKO_SPELLER_CACHE_SIZE, -1); // options change: start without remembered results
				voikkoSetIntegerOption(h, VOIKKO_SPELLER_CACHE_SIZE, 0);
			}
		}
	}
	// every small lexicon drawn from the pool
	E().startFamily("small lexicons");
	{
		vector<wstring> ws;
		strings(chars(L"atkA-."), 1, small ? 3 : 4, [&](const wstring & w) { ws.push_back(w); });
		strings({L"ta", L"tat", L"ata", L"at", L"-", L"kat", L"tak", L"AK:A", L"\u00AD", L"kk", L"1"}, 2, small ? 2 : 4, [&](const wstring & w) { ws.push_back(w); });
		for (size_t i = 0; i < POOL.size(); i++) for (size_t j = i; j < POOL.size(); j++) for (size_t k = j; k < (small ? j + 1 : POOL.size()); k++) {
			if (k != j && i == j) continue;
			if (small && j != i) continue;
			if (!th && k != j) continue;
			if (!E().take()) continue;
			vector<string> e = {POOL[i]}; if (j != i) e.push_back(POOL[j]); if (k != j) e.push_back(POOL[k]);
			string d = "lexicon"; for (auto & x : e) d += " " + x;
			E().desc(d);
			put(e, ""); sp::Lexicon l = lex(e);
			for (unsigned b : {56, 57, 57 + 64, 57 + 128, 57 + 192, 9, 41}) {
				Handle h(root, "fi-x-n"); sp::apply(h, sp::Opt::bits(b));
				for (auto & w : ws) if (!one(h, l, w, sp::Opt::bits(b), d, false)) break;
			}
		}
	}
	return E().finish();
}
