// Reference for the spelling verdict, written on strings.
#ifndef REF_SPELL_HPP
#define REF_SPELL_HPP
#include "ref_hyph.hpp"
namespace sp {
using std::wstring; using std::string; using std::vector; using std::map;
enum R { OK, CAP_FIRST, CAP_ERROR, FAILED }; // best first
struct Entry { wstring structure; bool freeEnding; };
struct Opt {
	bool dot = false, numbers = false, upper = false, nonwords = true, firstUpper = true, allUpper = true, extra = false, missing = false;
	static Opt bits(unsigned b) { Opt o; o.dot = b & 1; o.numbers = b & 2; o.upper = b & 4; o.nonwords = b & 8; o.firstUpper = b & 16; o.allUpper = b & 32; o.extra = b & 64; o.missing = b & 128; return o; }
	string show() const { return string(dot ? " ignore-dot" : "") + (numbers ? " ignore-numbers" : "") + (upper ? " ignore-uppercase" : "") + (nonwords ? "" : " no-ignore-nonwords") + (firstUpper ? "" : " no-first-upper") + (allUpper ? "" : " no-all-upper") + (extra ? " extra-hyphens" : "") + (missing ? " missing-hyphens" : ""); }
};
enum Backend { TWEAKS, PLAIN, EXACT };
struct Lexicon {
	Backend backend = TWEAKS;
	map<wstring, vector<Entry>> words; // lower case surface
	std::set<wstring> exact;           // for the exact backend
	mutable map<wstring, string> shy;
	void add(const string & markup) {
		fi::Syms s = fi::syms(markup);
		wstring w = fi::surface(s); for (auto & c : w) c = ref::lower(c);
		for (auto & r : fi::readings(s)) words[w].push_back(Entry{r["STRUCTURE"], r.count("MALAGA_VAPAA_JALKIOSA") && r["MALAGA_VAPAA_JALKIOSA"] == L"true"});
	}
	const vector<Entry> & find(wstring w) const { static const vector<Entry> none; for (auto & c : w) c = ref::lower(c); auto i = words.find(w); return i == words.end() || w.size() > 255 ? none : i->second; }
};
inline R match(const wstring & w, const wstring & structure) {
	wstring marks; for (wchar_t c : structure) if (c != L'=') marks += c;
	R r = OK;
	for (size_t i = 0; i < w.size() && i < marks.size(); i++) {
		if (ref::isUpper(w[i]) && (marks[i] == L'p' || marks[i] == L'q')) return CAP_ERROR;
		if (ref::isLower(w[i]) && (marks[i] == L'i' || marks[i] == L'j')) { if (i) return CAP_ERROR; r = CAP_FIRST; }
	}
	return r;
}
inline R plain(const Lexicon & l, const wstring & w) { R r = FAILED; for (auto & e : l.find(w)) r = std::min(r, match(w, e.structure)); return r; }
inline R tweaked(const Lexicon & l, const wstring & w, bool extra);
inline R noShyRaw(const Lexicon & l, const wstring & w, bool extra);
inline R noShy(const Lexicon & l, const wstring & w, bool extra) {
	if (w.size() < 30) return noShyRaw(l, w, extra);
	static map<std::pair<wstring, bool>, R> memo; static const Lexicon * owner = nullptr; // long words: subproblems repeat
	if (owner != &l || memo.size() > 200000) { memo.clear(); owner = &l; }
	auto i = memo.find({w, extra}); if (i != memo.end()) return i->second;
	return memo[{w, extra}] = noShyRaw(l, w, extra);
}
inline R noShyRaw(const Lexicon & l, const wstring & w, bool extra) {
	R r = plain(l, w);
	size_t n = w.size();
	if (r == OK || n <= 3) return r;
	size_t h = w.find(L'-', 1);
	if (h == wstring::npos || h >= n - 1) return r;
	wstring without = w.substr(0, h) + w.substr(h + 1);
	if (extra && h > 1 && w[h + 1] != L'-' && noShy(l, without, extra) == OK) return OK;
	if (h >= 2 && n - h >= 3) { // pop-opisto
		auto lo = [&](size_t i) { return ref::lower(w[i]); };
		if (hy::V(lo(h - 2)) && hy::C(lo(h - 1)) && lo(h + 1) == lo(h - 2) && lo(h + 2) == lo(h - 1)) { R q = plain(l, without); if (q < r) return q; }
	}
	size_t last = w.rfind(L'-', n - 2);
	{ // ja-sana
		R q = tweaked(l, w.substr(0, last), extra);
		if (q != FAILED) for (auto & e : l.find(w.substr(last + 1))) if (e.freeEnding) return q;
	}
	R with = FAILED, no = FAILED; // syys-ilta, syy-silta
	for (auto & e : l.find(without)) {
		size_t chars = 0, j = 0;
		while (j < e.structure.size() && chars < h) { if (e.structure[j] != L'=') chars++; j++; }
		if (chars < h) continue;
		R q = match(without, e.structure);
		if (j < e.structure.size() && e.structure[j] == L'=') with = std::min(with, q); else no = std::min(no, q);
	}
	if (no != FAILED && with < r) return with;
	return r;
}
inline R tweaked(const Lexicon & l, const wstring & w, bool extra) {
	if (w.find(L'\u00AD') == wstring::npos) return noShy(l, w, extra);
	wstring p; vector<size_t> at;
	for (size_t i = 0; i < w.size(); i++) {
		if (w[i] != L'\u00AD') { p += w[i]; continue; }
		if (p.empty() || i + 1 == w.size() || (!at.empty() && at.back() == p.size())) return FAILED;
		at.push_back(p.size());
	}
	R r = noShy(l, p, extra);
	if (r == FAILED) return r;
	hy::Opt o; o.min = 3; o.dot = true;
	vector<wstring> s, d;
	for (auto & e : l.find(p)) s.push_back(e.structure);
	if (p.back() == L'.') for (auto & e : l.find(p.substr(0, p.size() - 1))) d.push_back(e.structure);
	string m = hy::pattern(p, s, d, o, true);
	for (size_t i : at) if (m[i] != '-') return FAILED;
	return r;
}
inline R speller(const Lexicon & l, const wstring & w, const Opt & o) {
	if (l.backend == EXACT) {
		if (l.exact.count(w)) return OK;
		wstring u = w; if (!u.empty() && ref::isLower(u[0])) { u[0] = ref::upper(u[0]); if (l.exact.count(u)) return CAP_FIRST; }
		return FAILED;
	}
	return l.backend == PLAIN ? plain(l, w) : tweaked(l, w, o.extra);
}
inline R withHyphens(const Lexicon & l, const wstring & w, const Opt & o) {
	R r = speller(l, w, o);
	if (r != FAILED || !o.missing || w.size() < 2 || (w[0] == L'-' && w.back() == L'-')) return r;
	return speller(l, (w[0] == L'-' ? L"" : L"-") + w + (w.back() == L'-' ? L"" : L"-"), o);
}
enum Case { NONE, LOWER, FIRST, UPPER, MIXED };
inline Case caseOf(const wstring & w) {
	bool letter = false, lowerAny = false, upperLater = false;
	for (size_t i = 0; i < w.size(); i++) { bool u = ref::isUpper(w[i]), l = ref::isLower(w[i]); if (!u && !l) continue; letter = true; if (l) lowerAny = true; if (u && i) upperLater = true; }
	if (!letter) return NONE;
	if (!lowerAny) return UPPER;
	if (upperLater) return MIXED;
	return ref::isUpper(w[0]) ? FIRST : LOWER;
}
inline bool accepted(const Lexicon & l, const wstring & word, const Opt & o) {
	if (word.empty()) return true;
	if (word.size() > 255) return false;
	wstring w = ref::normalise(word);
	if (o.numbers) for (wchar_t c : w) if (c >= L'0' && c <= L'9') return true;
	Case k = caseOf(w);
	if (o.upper && k == UPPER) return true;
	if (o.nonwords && hy::addressLike(w)) return true;
	if (k == UPPER && !o.allUpper) k = MIXED;
	vector<wstring> forms = {w};
	if (o.dot && w.back() == L'.') forms.push_back(w.substr(0, w.size() - 1));
	for (wstring f : forms) {
		if (k == MIXED || k == NONE) { // letter case has to be exact apart from the first letter
			if (f.empty()) { if (withHyphens(l, f, o) == OK) return true; continue; }
			bool up = ref::isUpper(w[0]);
			f[0] = ref::lower(f[0]);
			R r = withHyphens(l, f, o);
			if ((r == OK && (o.firstUpper || !up)) || (r == CAP_FIRST && up)) return true;
			continue;
		}
		for (auto & c : f) c = ref::lower(c);
		R r = withHyphens(l, f, o);
		if (k == UPPER ? r != FAILED : k == LOWER ? r == OK : (r == OK && o.firstUpper) || r == CAP_FIRST) return true;
	}
	return false;
}
inline void apply(VoikkoHandle * h, const Opt & o) {
	voikkoSetBooleanOption(h, VOIKKO_OPT_IGNORE_DOT, o.dot); voikkoSetBooleanOption(h, VOIKKO_OPT_IGNORE_NUMBERS, o.numbers);
	voikkoSetBooleanOption(h, VOIKKO_OPT_IGNORE_UPPERCASE, o.upper); voikkoSetBooleanOption(h, VOIKKO_OPT_IGNORE_NONWORDS, o.nonwords);
	voikkoSetBooleanOption(h, VOIKKO_OPT_ACCEPT_FIRST_UPPERCASE, o.firstUpper); voikkoSetBooleanOption(h, VOIKKO_OPT_ACCEPT_ALL_UPPERCASE, o.allUpper);
	voikkoSetBooleanOption(h, VOIKKO_OPT_ACCEPT_EXTRA_HYPHENS, o.extra); voikkoSetBooleanOption(h, VOIKKO_OPT_ACCEPT_MISSING_HYPHENS, o.missing);
}
}
#endif
