// P05: splitting any text into sentences, compared with the reference.
#include "common.hpp"
#include "ref_text.hpp"
using namespace mc;
static VoikkoHandle * H[2];
static std::set<wstring> lex;
static bool known(const wstring & w) { return lex.count(ref::lower(w)) > 0; }

static void check(const wstring & text) {
	for (int dot = 0; dot < 2; dot++) {
		size_t pos = 0; uint64_t sig = dot;
		for (int guard = 0;; guard++) {
			wstring rest = text.substr(pos);
			ref::Sentence want = ref::sentence(rest, [](wchar_t c) { return ref::isUpper(c); }, known);
			int type[2]; size_t len[2];
			for (int v = 0; v < 2; v++) {
				// the characters after the stated length must not matter
				wchar_t * buf = new wchar_t[rest.size() + 3];
				wmemcpy(buf, rest.data(), rest.size());
				wmemcpy(buf + rest.size(), v ? L",. " : L"a.\"", 3);
				len[v] = 999999;
				type[v] = voikkoNextSentenceStartUcs4(H[dot], buf, rest.size(), &len[v]);
				delete[] buf;
				E().step();
			}
			if (type[0] != want.type || len[0] != want.len || type[1] != want.type || len[1] != want.len) {
				E().fail(show(text) + (dot ? " ignore_dot" : ""), "at " + num(pos) + " expected type " + num(want.type) + " length " + num(want.len) + ", got " + num(type[0]) + "/" + num(len[0]) + " and " + num(type[1]) + "/" + num(len[1]));
				return;
			}
			sig = sig * 31 + type[0] * 7 + std::min<size_t>(len[0], 12);
			if (type[0] == ref::S_NONE) { pos += len[0]; break; }
			if (len[0] == 0) { E().fail(show(text), "empty sentence"); return; }
			pos += len[0];
		}
		if (pos != text.size()) { E().fail(show(text), "sentences do not add up to the text"); return; }
		size_t n = 0; // the option itself must be as it was
		voikkoNextTokenUcs4(H[dot], L"ab. ", 4, &n);
		if (n != (size_t)(2 + dot)) { E().fail(show(text), "the trailing dot option was changed"); return; }
		E().state(sig);
	}
}
static void one(const wstring & t) { if (E().take()) { E().desc(show(t)); check(t); } }

int main(int argc, char ** argv) {
	E().init(argc, argv);
	bool small = false;
	for (int i = 1; i < argc; i++) if (!strcmp(argv[i], "--small")) small = true;
	string d = finnishDict("sent", {"[Ln][Xp]kissa[X]kissa[Sn][Ny]", "[La][Xp]es.[X]es.[Sn][Ny]", "[La][Xp]a.k.a.[X]a.k.a.[Sn][Ny]", "[La][Xp]Pvm.[X]pvm.[Sn][Ny]", "[Ln][Xp]es[X]es[Sn][Ny]"});
	lex = {L"kissa", L"es.", L"a.k.a.", L"pvm.", L"es"};
	Handle h0(d), h1(d);
	H[0] = h0; H[1] = h1;
	voikkoSetBooleanOption(H[1], VOIKKO_OPT_IGNORE_DOT, 1);

	E().startFamily("token-words");
	vector<wstring> A = {L"kis", L"es", L"K", L"12", L".", L"!", L":", L"\"", L",", L" ", L"...", L"\u2026", L"-"};
	strings(A, 0, small ? 3 : E().thorough ? 7 : 6, one);
	E().startFamily("quotation-words");
	vector<wstring> B = {L"a", L"?", L".", L"\u201D", L"\u201C", L"\u00BB", L",", L" ", L"\n", L")", L";", L":"};
	strings(B, 0, small ? 3 : E().thorough ? 7 : 6, one);
	E().startFamily("dotted-words");
	vector<wstring> C = {L"es", L"Es", L"eS", L"pvm", L"a", L".", L"k", L"K", L"\u00C0", L"2", L"-", L" ", L"'"};
	strings(C, 0, small ? 3 : E().thorough ? 6 : 5, one);
	E().startFamily("dotted-words-long");
	vector<wstring> D = {L"a", L".", L"k", L"2", L" "};
	strings(D, 0, small ? 5 : E().thorough ? 9 : 8, one);
	E().startFamily("every-character");
	for (wchar_t c = 1; c <= (small ? 0x600 : 0x3100); c++) {
		if (c >= 0xD800 && c <= 0xDFFF) continue;
		wstring s(1, c);
		for (auto & x : vector<std::pair<wstring, wstring>>{{L"a b", L" K a."}, {L"a ", L"."}, {L"a.", L"b"}, {L"a. ", L" b."}, {L"\"a", L"\" b"}, {L"\"a.\"", L" B."}, {L"a", L". B"}, {L"", L". b"}, {L"a.\"", L"b\""}}) one(x.first + s + x.second);
	}
	E().startFamily("long");
	for (size_t n = 1; n <= (small ? 60u : 700u); n++) for (const wchar_t * u : {L"a", L"a ", L"a.", L"!", L"\"", L"1.", L"- ", L"es. "}) {
		wstring s; for (size_t i = 0; i < n; i++) s += u;
		if (s.size() > 1400) continue;
		one(s); one(s + L". B c."); one(L"A b! " + s);
	}
	return E().finish();
}
