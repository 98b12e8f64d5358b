// P06: hyphenation
#include "common.hpp"
#include "ref_hyph.hpp"
using namespace mc;
static string root; static bool small = false;
static vector<hy::Opt> OPTS;
static void setOpt(VoikkoHandle * h, const hy::Opt & o) {
	voikkoSetBooleanOption(h, VOIKKO_OPT_NO_UGLY_HYPHENATION, !o.ugly);
	voikkoSetBooleanOption(h, VOIKKO_OPT_HYPHENATE_UNKNOWN_WORDS, o.unknown);
	voikkoSetBooleanOption(h, VOIKKO_OPT_IGNORE_DOT, o.dot);
	voikkoSetIntegerOption(h, VOIKKO_MIN_HYPHENATED_WORD_LENGTH, (int) o.min);
}
static string showO(const hy::Opt & o) { return string(o.ugly ? "" : " no-ugly") + (o.unknown ? "" : " not-unknown") + (o.dot ? " ignore-dot" : "") + " min=" + num(o.min); }
static bool query(VoikkoHandle * h, const wstring & w, const string & want, const hy::Opt & o, const string & d, bool full) {
	char * p = voikkoHyphenateUcs4(h, w.c_str()); E().step();
	string got = p ? p : "(null)"; voikkoFreeCstr(p);
	if (got != want) { E().fail(d + " word " + show(w) + showO(o), "expected pattern \"" + want + "\" got \"" + got + "\""); return false; }
	E().state(hashStr(got));
	if (!full) return true;
	string u = utf8(w);
	if (u.size() > 255) return true;
	p = voikkoHyphenateCstr(h, u.c_str()); E().step();
	got = p ? p : "(null)"; voikkoFreeCstr(p);
	if (got != want) { E().fail(d + " word " + show(w) + showO(o) + " (bytes)", "expected pattern \"" + want + "\" got \"" + got + "\""); return false; }
	static const vector<wstring> seps = {L"\u00AD", L"-", L"&shy;", L""};
	for (auto & s : seps) for (int ch = 0; ch < 2; ch++) {
		p = voikkoInsertHyphensCstr(h, u.c_str(), utf8(s).c_str(), ch); E().step();
		string g = p ? p : "(null)"; voikkoFreeCstr(p);
		string e = utf8(hy::insert(w, want, s, ch));
		if (g != e) { E().fail(d + " word " + show(w) + showO(o) + " insert " + show(s) + (ch ? " with" : " without") + " context changes", "expected " + e + " got " + g); return false; }
	}
	return true;
}
static bool startsWith(const wstring & a, const wchar_t * b) { return a.compare(0, wcslen(b), b) == 0; }
int main(int argc, char ** argv) {
	setlocale(LC_ALL, "C.UTF-8");
	E().init(argc, argv);
	for (int i = 1; i < argc; i++) if (!strcmp(argv[i], "--small")) small = true;
	bool th = E().thorough;
	for (int u = 0; u < 2; u++) for (int k = 0; k < 2; k++) for (int d = 0; d < 2; d++) for (size_t m : {2, 3, 4, 0, 1, 6}) { hy::Opt o; o.ugly = !u; o.unknown = !k; o.dot = d; o.min = m; OPTS.push_back(o); }
	root = scratch("hyph");
	vf::dict(root, "n", "Language: fi-x-n\nDescription: n\nGrammar-Backend: null\n", {{"mor.vfst", vf::Writer::write(vf::finnishLexicon({"[Ln]zzzz"}), false)}});
	{
		vector<Handle *> hs; for (auto & o : OPTS) { hs.push_back(new Handle(root, "fi-x-n")); setOpt(*hs.back(), o); }
		auto unknown = [&](const wstring & w) {
			if (!E().take()) return;
			bool full = w.size() <= (small ? 3 : th ? 5 : 4) || w.size() > 20; // insertion is checked on all words of these lengths
			if (full) E().desc("unknown word " + show(w)); else E().desc("");
			for (size_t i = 0; i < OPTS.size(); i++) {
				if (OPTS[i].min > 2 && OPTS[i].min != 4 && w.size() > 4) continue;
				if (OPTS[i].dot && w.back() != L'.') continue;
				if (!query(*hs[i], w, hy::pattern(w, {}, {}, OPTS[i]), OPTS[i], "unknown", full)) return;
			}
		};
		E().startFamily("unknown words, mixed alphabet");
		strings(chars(L"aietsh-'.5\u00E4:"), 1, small ? 3 : th ? 6 : 5, unknown);
		E().startFamily("unknown words, vowels");
		strings(chars(L"aeiouy\u00E4\u00F6Ak"), 1, small ? 2 : th ? 6 : 5, unknown);
		E().startFamily("unknown words, syllables");
		strings(chars(L"aiekt"), 1, small ? 4 : th ? 9 : 7, unknown);
		E().startFamily("unknown words, long consonants");
		strings({L"sht", L"sh", L"tsh", L"\u0161", L"\u0161t", L"t", L"zh", L"\u017E", L"a", L"e", L"ie", L"-"}, 1, small ? 2 : th ? 5 : 4, unknown);
		E().startFamily("unknown words, every character");
		for (wchar_t c = 1; c < 0x600; c++) { if (c == 0) continue; for (auto & p : {wstring(L"ka"), wstring(L"a"), wstring(L"")}) for (auto & q : {wstring(L"a"), wstring(L"ta"), wstring(L"aa"), wstring(L".")}) unknown(p + c + q); }
		E().startFamily("addresses and special characters");
		strings({L"www.", L"a", L"ti", L"//", L"/", L"@", L".", L"fi", L"&", L"%", L"4"}, 1, small ? 2 : th ? 6 : 5, unknown);
		E().startFamily("long words");
		for (size_t n = 1; n <= 255; n += small ? 25 : 1) for (auto & base : {L"kato", L"aie", L"a-", L"\u00E4\u00F6"}) { wstring w; while (w.size() < n) w += base; w.resize(n); unknown(w); }
		for (auto * h : hs) delete h;
	}
	// dictionary words: every segmentation of every word, alone and in pairs
	auto known = [&](const vector<string> & entries, const wstring & w, bool full) {
		if (!E().take()) return;
		string d = "lexicon"; for (auto & e : entries) d += " " + e;
		E().desc(d + " word " + show(w));
		string f = root + "/5/mor-n/mor.vfst"; unlink(f.c_str());
		writeFile(f, vf::Writer::write(vf::finnishLexicon(entries), false, false, {"z", "[Ln]", "."}));
		Handle h(root, "fi-x-n");
		vector<wstring> st, sd;
		wstring lw = w; for (auto & c : lw) c = ref::lower(c);
		wstring lwd = lw; if (!lwd.empty()) lwd.pop_back();
		for (auto & e : entries) { fi::Syms s = fi::syms(e); wstring sf = fi::surface(s); for (auto & c : sf) c = ref::lower(c); for (auto & r : fi::readings(s)) { if (sf == lw) st.push_back(r["STRUCTURE"]); else if (sf == lwd) sd.push_back(r["STRUCTURE"]); } }
		for (auto & o : OPTS) {
			if (o.dot && w.back() != L'.') continue;
			if (o.min == 0 || o.min == 1 || (o.min == 6 && !full)) continue;
			setOpt(h, o);
			if (!query(h, w, hy::pattern(w, st, sd, o), o, d, full)) return;
		}
	};
	(void) startsWith;
	auto segmentations = [&](wstring w) {
		for (auto & c : w) c = ref::lower(c);
		vector<string> r;
		size_t n = w.size();
		// cut[i]: before character i; only between letters, hyphens are boundaries of their own
		for (unsigned m = 0; m < 1u << (n - 1); m++) for (int cls = 0; cls < 3; cls++) {
			bool ok = true; string e; int seg = 0;
			auto open = [&]() { e += cls == 0 ? "[Ln]" : cls == 1 ? (seg % 2 ? "[Ln]" : "[La]") : (seg % 2 ? "[La]" : "[Ln]"); seg++; };
			if (w[0] != L'-') open();
			for (size_t i = 0; i < n; i++) {
				bool cut = i && (m >> (i - 1) & 1);
				if (cut) { if (w[i] == L'-' || w[i] == L'\'') ok = false; else { e += w[i - 1] == L'-' ? "[Bc]" : "[Bc]"; open(); } }
				e += utf8(wstring(1, w[i]));
			}
			if (!ok || (cls && seg < 2 && cls == 2)) continue;
			r.push_back(e + "[Sn][Ny]");
		}
		std::sort(r.begin(), r.end()); r.erase(std::unique(r.begin(), r.end()), r.end());
		return r;
	};
	E().startFamily("one analysis");
	vector<wstring> words = {L"a", L"at", L"ta", L"kato", L"aita", L"kaais", L"taiea", L"ko'on", L"a-ta", L"ta-at", L"-tata", L"tata-", L"5-ti", L"eu:ta", L"istshi", L"kaika", L"Tiea", L"EUTA", L"aatta"};
	if (th) { words.push_back(L"katoaita"); words.push_back(L"ta-aita"); }
	for (auto & w : words) for (auto & s : segmentations(w)) { known({s}, w, true); known({s}, w + L".", true); }
	E().startFamily("two analyses");
	for (auto & w : words) {
		if (small && w.size() > 4) continue;
		auto sg = segmentations(w);
		for (size_t i = 0; i < sg.size(); i++) for (size_t j = i; j < sg.size(); j++) known({sg[i], sg[j]}, w, false);
	}
	E().startFamily("three analyses");
	for (auto & w : {wstring(L"kato"), wstring(L"aita"), wstring(L"a-ta")}) {
		if (small) continue;
		auto sg = segmentations(w);
		for (size_t i = 0; i < sg.size(); i++) for (size_t j = i; j < sg.size(); j++) for (size_t k = j; k < sg.size(); k++) known({sg[i], sg[j], sg[k]}, w, false);
	}
	E().startFamily("several analyses in every order");
	for (auto & w : {wstring(L"abaabaa"), wstring(L"kaaieta"), wstring(L"ta-aita")}) {
		vector<string> pool;
		for (auto & s : segmentations(w)) { size_t cuts = 0; for (size_t p = s.find("[Bc]"); p != string::npos; p = s.find("[Bc]", p + 1)) cuts++; if (cuts <= 1 && s.find("[La]") == string::npos) pool.push_back(s); }
		size_t n = pool.size(), most = small ? 2 : th ? 4 : 3;
		for (size_t k = 2; k <= most; k++) { size_t total = 1; for (size_t i = 0; i < k; i++) total *= n; for (size_t x = 0; x < total; x++) { vector<string> e; for (size_t i = 0, y = x; i < k; i++, y /= n) e.push_back("[Ln][Xp]" + string(1, char('b' + i)) + "[X]" + pool[y % n].substr(4)); known(e, w, false); } }
	}
	E().startFamily("many identical analyses");
	for (int n : {30, 31, 32, 40, 99, 120}) { vector<string> e; for (int i = 0; i < n; i++) e.push_back("[Ln][Xp]k" + num(i) + "[X]ka[Bc][Ln]aita[Sn][Ny]"); known(e, L"kaaita", true); }
	return E().finish();
}
