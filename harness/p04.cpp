// P04: tokenising any text, compared token by token with the reference tokeniser.
#include "common.hpp"
#include "ref_text.hpp"
using namespace mc;

static VoikkoHandle * H[2];

static void check(const wstring & text, bool shadow) {
	for (int dot = 0; dot < 2; dot++) {
		size_t pos = 0;
		uint64_t sig = dot;
		for (;;) {
			wstring rest = text.substr(pos);
			ref::Token want = ref::token(rest, dot);
			// an exactly sized copy (over-reads are visible to the sanitizer), and one followed by other characters
			wchar_t * buf = new wchar_t[rest.size() + (shadow ? 3 : 0)];
			wmemcpy(buf, rest.data(), rest.size());
			size_t n = 9999999; int type;
			if (shadow) { wmemcpy(buf + rest.size(), L"a@.", 3); }
			type = voikkoNextTokenUcs4(H[dot], buf, rest.size(), &n);
			E().step();
			bool bad = type != want.type || n != want.len;
			size_t n2 = n; int t2 = type;
			if (shadow && !bad) {
				wmemcpy(buf + rest.size(), L" 1-", 3);
				t2 = voikkoNextTokenUcs4(H[dot], buf, rest.size(), &n2);
				bad = t2 != want.type || n2 != want.len;
			}
			delete[] buf;
			if (bad) {
				E().fail(show(text) + (dot ? " ignore_dot" : ""), "at " + num(pos) + " expected type " + num(want.type) + " length " + num(want.len) + ", got type " + num(type) + " length " + num(n) + " / type " + num(t2) + " length " + num(n2));
				return;
			}
			sig = sig * 31 + type * 7 + std::min<size_t>(n, 9);
			if (want.type == ref::T_NONE) break;
			pos += n;
		}
		if (pos != text.size()) { E().fail(show(text), "tokens do not add up to the text"); return; }
		E().state(sig);
	}
}
static void one(const wstring & t) { if (E().take()) { E().desc(show(t)); check(t, true); } }

int main(int argc, char ** argv) {
	E().init(argc, argv);
	bool small = false;
	for (int i = 1; i < argc; i++) if (!strcmp(argv[i], "--small")) small = true;
	string d = finnishDict("tok", {"[Ln][Xp]kissa[X]kissa[Sn][Ny]"});
	Handle h0(d), h1(d);
	H[0] = h0; H[1] = h1;
	voikkoSetBooleanOption(H[1], VOIKKO_OPT_IGNORE_DOT, 1);

	E().startFamily("class-words");
	vector<wstring> A = chars(L"aK\u00E41 .,-:'\"!(_@");
	strings(A, 0, small ? 3 : E().thorough ? 6 : 5, one);

	E().startFamily("class-words-typographic");
	vector<wstring> B = chars(L"a1 \u00A0.-,\u2019\u00AD\u2010\u2011\u201D\u2026\u2013#/");
	strings(B, 1, small ? 3 : E().thorough ? 6 : 5, one);

	E().startFamily("every-character-in-context");
	{
		vector<std::pair<wstring, wstring>> ctx = {{L"", L""}, {L"a", L"a"}, {L"1", L"1"}, {L"a", L""}, {L"", L"a"}, {L"a-", L""}, {L"a.", L"x"}, {L"1.", L""}, {L"1,", L""}, {L" ", L" "}, {L"a'", L"b"}, {L"a:", L""},
			{L"-", L""}, {L"ab", L"c@d.fi"}, {L"ab@c", L"d.fi"}, {L"ab@cd.", L"fi"}, {L"ab@cd.fi", L"x"}, {L"ab@cd.fi.", L""}, {L"http://abc", L"de.fi"}, {L"http://abcde.", L""}, {L"https://abcd", L""}, {L"a\u00AD", L""}, {L"\u2010", L""}, {L"..", L"."}};
		wchar_t max = small ? 0x700 : 0x30000;
		for (wchar_t c = 1; c <= max; c++) {
			if (c >= 0xD800 && c <= 0xDFFF) continue;
			for (auto & x : ctx) one(x.first + wstring(1, c) + x.second);
		}
		for (wchar_t c : {(wchar_t) 0xE000, (wchar_t) 0xFFFF, (wchar_t) 0x10FFFF, (wchar_t) 0x110000, (wchar_t) 0x7FFFFFFF}) for (auto & x : ctx) one(x.first + wstring(1, c) + x.second);
	}
	E().startFamily("address-like");
	{
		vector<wstring> U = {L"http://", L"https://", L"http:/", L"HTTP://", L"a", L"bcde", L"1", L".", L"@", L"/", L" ", L"?", L"_", L",", L"-", L"fi", L"#", L"\u00E4", L"<"};
		strings(U, 1, small ? 3 : E().thorough ? 5 : 4, one);
		vector<wstring> V = {L"a", L".", L"@", L"b.c", L" ", L"_", L",", L"1", L"-"};
		vector<wstring> heads = {L"", L"http://aaaaa", L"aa@b", L"https://a.", L"aaaaaa"};
		strings(V, 0, small ? 3 : E().thorough ? 6 : 5, [&](const wstring & s) { for (auto & x : heads) one(x + s); });
	}
	E().startFamily("minimum-lengths");
	{
		// every prefix of address shaped texts, so that each length threshold is met from both sides
		for (const wchar_t * t : {L"http://a.fi/bc def", L"https://a.fi/bc def", L"a@b.fi cde", L"a@b.f", L"ab@c.de.fi, x", L"http://abcdefgh.", L"https://x.fi..", L"http://a.b. c", L"first.last+tag@mail.example.org...", L"a.b@c", L"a_b@c.d", L"1@2.3.4", L"!a@b.fi", L"-a@b.fi", L"-http://abcde.fi x"}) {
			wstring s = t;
			for (size_t b = 0; b < s.size(); b++) for (size_t e = b; e <= s.size(); e++) one(s.substr(b, e - b));
		}
	}
	E().startFamily("runs");
	{
		vector<wstring> units = chars(L"a1 .,-:'\u00AD\u2010@_\"");
		for (size_t n = 1; n <= (small ? 40u : 300u); n++) for (auto & u : units) for (const wchar_t * tail : {L"", L"a", L" a", L".", L"1,2"}) {
			wstring s; for (size_t i = 0; i < n; i++) s += u;
			one(s + tail);
			one(L"a" + s + tail);
		}
	}
	return E().finish();
}
