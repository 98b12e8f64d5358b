// P10: grammar errors lie inside the text, are ordered, and can be paged through by skip count, start position and text length in any order.
#include <memory>
#include <cstring>
#include "api.hpp"
using namespace mc;
struct Err { size_t pos, len; string all; };
static VoikkoHandle * H, * H2;
static Err get(VoikkoHandle * h, const wchar_t * t, size_t n, size_t start, int skip, bool & found) {
	VoikkoGrammarError * e = voikkoNextGrammarErrorUcs4(h, t, n, start, skip);
	E().step();
	Err r{0, 0, "none"}; found = e;
	if (e) { r.pos = voikkoGetGrammarErrorStartPos(e); r.len = voikkoGetGrammarErrorLength(e); r.all = api::error(e, false); voikkoFreeGrammarError(e); }
	return r;
}
static const wstring OTHER = L"Muu  teksti , jossa on.. virheitä";
// the errors of a text, one by one
static vector<Err> list(VoikkoHandle * h, const wstring & t, bool disturb = false) {
	vector<Err> v; bool f;
	for (int k = 0; k < 5000; k++) { if (disturb) { bool g; get(h, OTHER.c_str(), OTHER.size(), 0, k % 3, g); } Err e = get(h, t.c_str(), t.size(), 0, k, f); if (!f) break; v.push_back(e); }
	return v;
}
static string model(const vector<Err> & v, size_t start, int skip) { for (size_t i = skip; i < v.size(); i++) if (v[i].pos >= start) return v[i].all; return "none"; }
static void text(const wstring & t, bool pages) {
	if (!E().take()) return;
	string name = t.size() > 300 ? show(t.substr(0, 100)) + "... " + num((long long) t.size()) : show(t);
	E().desc(name);
	auto v = list(H, t);
	uint64_t sig = 7;
	for (size_t i = 0; i < v.size(); i++) {
		sig = sig * 31 + hashStr(v[i].all);
		if (v[i].pos >= t.size() || v[i].len == 0 || v[i].pos + v[i].len > t.size()) E().fail(name, "error " + v[i].all + " is not inside the text of " + num((long long) t.size()) + " characters");
		if (i && v[i].pos < v[i - 1].pos) E().fail(name, "error " + v[i].all + " comes after " + v[i - 1].all);
	}
	E().state(sig);
	if (!pages) return;
	// the same, with the text recomputed for every call
	auto w = list(H, t, true);
	string a, b; for (auto & e : v) a += e.all + " "; for (auto & e : w) b += e.all + " ";
	if (a != b) E().fail(name, "paging in one go gives " + a + ", with another text in between " + b);
	bool f;
	size_t step = t.size() > 40 ? t.size() / 17 + 1 : 1;
	for (size_t s = 0; s <= t.size() + 1; s += step) for (int k = 0; k <= (int) v.size() + 1; k += v.size() > 10 ? 7 : 1) {
		string g = get(H, t.c_str(), t.size(), s, k, f).all, e = model(v, s, k);
		if (g != e) E().fail(name, "start " + num((long long) s) + " skip " + num(k) + ": expected " + e + ", got " + g);
	}
	// going on behind the end of each error finds the next error that starts there or later
	// every prefix, from a buffer that holds other text behind it
	for (size_t n = 1; n <= t.size(); n += step) {
		wstring p = t.substr(0, n);
		auto x = list(H2, p);
		std::unique_ptr<wchar_t[]> exact(new wchar_t[n]); wmemcpy(exact.get(), t.c_str(), n);
		wstring other = p + (n % 2 ? L"kissa  ," : L",,  .. (");
		for (int k = 0; k <= (int) x.size(); k++) {
			string e = model(x, 0, k), g1 = get(H, t.c_str(), n, 0, k, f).all, g2 = get(H, exact.get(), n, 0, k, f).all, g3 = get(H, other.c_str(), n, 0, k, f).all;
			if (g1 != e || g2 != e || g3 != e) E().fail(name, "first " + num((long long) n) + " characters, skip " + num(k) + ": expected " + e + ", got " + g1 + " from the longer text, " + g2 + " from a buffer of that size, " + g3 + " with other text behind");
		}
		// and the bytes interface
		string u = utf8(t.substr(0, n)), more = u + "\xc3\xa4  ,";
		for (int k = 0; k <= (int) x.size(); k++) {
			VoikkoGrammarError * ce = voikkoNextGrammarErrorCstr(H, more.c_str(), u.size(), 0, k);
			string g = api::error(ce, false); if (ce) voikkoFreeGrammarError(ce);
			E().step();
			if (g != model(x, 0, k)) E().fail(name, "first " + num((long long) u.size()) + " bytes, skip " + num(k) + ": expected " + model(x, 0, k) + ", got " + g);
		}
	}
}
int main(int argc, char ** argv) {
	E().init(argc, argv);
	bool small = false, T = E().thorough;
	for (int i = 1; i < argc; i++) if (!strcmp(argv[i], "--small")) small = true;
	string root = scratch("p10");
	api::finnish(root, "pg");
	Handle h(root), h2(root); H = h; H2 = h2;
	auto n = [&](size_t s, size_t q, size_t t) { return small ? s : T ? t : q; };

	E().startFamily("texts, paged every way");
	strings({L"kissa", L"Koira", L" ", L"  ", L",", L".", L"\"", L"(", L"ei", L"kisaa", L"\u201C", L"joten kuten"}, 0, n(2, 3, 4), [&](const wstring & t) { text(t, true); });
	E().startFamily("sentences, paged every way");
	strings({L"Kissa juoksee.", L" ", L"kissa,, koira.", L"Kisaa  syö", L"\n", L" joten kuten! ", L"\"", L"a a "}, 1, n(2, 3, 5), [&](const wstring & t) { text(t, true); });
	E().startFamily("texts, places only");
	strings({L"kissa", L"Koira", L" ", L"  ", L",", L".", L"\"", L"(", L")", L"ei", L"juoksee", L"kisaa", L"\u201C", L"\u201D", L"joten kuten", L"\t", L"2", L"!"}, 0, n(3, 5, 6), [&](const wstring & t) { text(t, false); });
	E().startFamily("every character");
	for (wchar_t c = 1; c <= (small ? 0x180 : 0x2100); c++) for (auto & x : vector<std::pair<wstring, wstring>>{{L"", L"issa  juoksee"}, {L"Kissa ", L" juoksee,,"}, {L"Kissa juoksee", L""}, {L"Kisaa ", L"joten kuten"}}) text(x.first + wstring(1, c) + x.second, false);
	for (wchar_t c : {L'\xAD', L'\x2029', L'\x301', L'\xFB01', L'\x10FFFF', L'\x1F600', L'\x2011', L'\xFEFF', L'\x200B'}) for (auto & x : vector<std::pair<wstring, wstring>>{{L"", L"kisaa  juoksee"}, {L"Kissa ", L" juoksee,, joten kuten"}, {L"Kisaa joten", L" kuten"}, {L"Kisaa joten ", L"kuten kisaa"}}) text(x.first + wstring(1, c) + x.second, true);
	E().startFamily("many errors, tokens and sentences");
	for (int k : {100, 123, 124, 125, 126, 166, 167, 199, 200, 201, 249, 250, 251, 400, 499, 500, 501, 600}) {
		if (small && k > 251) break;
		wstring a, b, c, d; for (int i = 0; i < k; i++) { a += L"kisaa "; b += L"kisaa. "; c += L"Koira  ,"; d += L"joten kuten  "; }
		for (auto & t : {a, b, c, d, a + L".  Koira", b + L"Koira  ,", a + b, b + a}) text(t, k < 130 || k == 200 || k == 250);
	}
	// call sequences on one handle
	E().startFamily("sequences of calls");
	struct Op { const wchar_t * t; size_t n, start; int skip; };
	wstring t0 = L"Kissa  kisaa ,koira.", t1 = L"Kissa  kisaa ,koira. Joten", t2 = L"kissa  kisaa ,koira.", t3 = t0, buf;
	vector<Op> ops;
	for (auto * t : {&t0, &t1, &t2}) for (size_t len : {(size_t) 7, (size_t) 12, t->size()}) for (size_t s : {(size_t) 0, (size_t) 6}) for (int k : {0, 1, 2}) ops.push_back({t->c_str(), len, s, k});
	ops.push_back({L"", 0, 0, 0}); ops.push_back({L"x", 1, 0, 0}); ops.push_back({L"\n", 1, 0, 0});
	vector<string> alone;
	for (auto & o : ops) { Handle f(root); alone.push_back(api::grammarAt(f, o.t, o.n, o.start, o.skip)); }
	sequences((int) ops.size(), 1, n(2, 2, 3), [&](const vector<size_t> & v) {
		if (!E().take()) return;
		auto at = [&](size_t i) { return show(wstring(ops[i].t, ops[i].n)) + " from " + num((long long) ops[i].start) + " skip " + num(ops[i].skip); };
		string d; for (size_t i : v) d += at(i) + "; ";
		E().desc(d);
		for (size_t i = 0; i < v.size(); i++) {
			auto & o = ops[v[i]]; E().step();
			// the caller's buffer is used again for every call
			buf.assign(o.t, o.n); buf.reserve(64);
			string g = api::grammarAt(H, buf.c_str(), o.n, o.start, o.skip);
			if (g != alone[v[i]]) E().fail(d, "call " + num((long long) i + 1) + " gives " + g + ", a fresh handle " + alone[v[i]]);
			E().state(hashStr(g));
		}
	});
	return E().finish();
}
