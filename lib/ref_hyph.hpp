// Reference for Finnish hyphenation. Marks: ' ' none, '-' break before the character, '=' break replacing the character, 'X' never.
#ifndef REF_HYPH_HPP
#define REF_HYPH_HPP
#include "ref_text.hpp"
#include "ref_finnish.hpp"
namespace hy {
using std::wstring; using std::string; using std::vector;
struct Opt { bool ugly = true, unknown = true, dot = false; size_t min = 2; };
inline bool V(wchar_t c) { return ref::in(c, L"aeiouy\u00E4\u00F6"); }
inline bool C(wchar_t c) { return ref::in(c, L"bcdfghjklmnpqrstvwxz\u0161\u017E"); }
inline bool addressLike(const wstring & w) {
	size_t n = w.size();
	if (n < 4) return false;
	size_t p = w.find(L'/');
	if (p != wstring::npos && p < n - 3 && w[p + 1] == L'/') { size_t d = w.find(L'.', p + 1); if (d != wstring::npos && d < n - 1) return true; }
	p = w.find(L'@');
	if (p != wstring::npos && p < n - 3 && w[p + 1] != L'.') { size_t d = w.find(L'.', p + 1); if (d != wstring::npos && d < n - 1) return true; }
	if (n >= 7 && w.compare(0, 4, L"www.") == 0 && w[4] != L'.' && w.find(L'.', 5) != wstring::npos) return true;
	return false;
}
inline bool mayRule(const wstring & w, const Opt & o) {
	if (w.size() < 2) return false;
	if (!o.ugly && (addressLike(w) || (w.back() >= L'0' && w.back() <= L'9'))) return false;
	return true;
}
inline bool broken(char c) { return c == '-' || c == '='; }
// a syllable break needs a vowel on both sides (the first letter of the part does not count), and may not leave a single last letter
inline bool good(const wstring & w, const string & m, size_t at) {
	if (at == 0 || at + 1 >= w.size()) return false;
	bool before = false, after = false;
	for (size_t i = at; i-- > 1 && !broken(m[i]);) before |= V(w[i]);
	for (size_t i = at; i < w.size() && !broken(m[i]) && w[i] != L'.'; i++) after |= V(w[i]);
	return before && after;
}
// syllable rules inside one part; m holds the marks so far
inline void syllables(const wstring & part, string & m, const Opt & o) {
	if (!mayRule(part, o) || m[0] == 'X') return;
	wstring w = part; for (auto & c : w) c = ref::lower(c);
	size_t n = w.size();
	size_t first = 0; while (first < n && C(w[first])) first++;
	for (size_t i = std::max<size_t>(first, 1); i + 1 < n; i++) // consonant + vowel
		if (C(w[i]) && V(w[i + 1]) && !ref::in(w[i - 1], L"/.:&%'") && (i < 2 || o.ugly || w[i - 2] != L'\'')) m[i] = '-';
	for (size_t i = 1; i + 1 < n; i++) if (w[i] == L'\'' && V(w[i + 1])) m[i] = '=';
	for (size_t i = 1; i + 1 < n; i++) if (V(w[i]) && w[i] == w[i + 1]) { // around long vowels
		if (V(w[i - 1]) && good(w, m, i)) m[i] = '-';
		if (good(w, m, i + 2)) m[i + 2] = '-';
	}
	static const vector<wstring> split = {L"ae", L"ao", L"ea", L"eo", L"ia", L"io", L"oa", L"oe", L"ua", L"ue", L"ye", L"e\u00e4", L"e\u00f6", L"i\u00e4", L"i\u00f6", L"y\u00e4", L"\u00e4e", L"\u00f6e"};
	for (size_t i = 0; i + 1 < n; i++) if (m[i + 1] == ' ') for (auto & s : split) if (w.compare(i, 2, s) == 0) m[i + 1] = '-';
	static const vector<wstring> longC = {L"shtsh", L"\u0161t\u0161", L"tsh", L"t\u0161", L"zh"};
	for (size_t i = 1; i + 1 < n; i++) for (auto & s : longC) if (i + s.size() < n && w.compare(i, s.size(), s) == 0) // not inside a long consonant
		for (size_t k = i + 1; k <= i + s.size(); k++) if (m[k] == '-') { m[k] = ' '; m[i] = '-'; }
	if (!o.ugly) { // no single letters, no breaks between vowels
		m[1] = ' '; m[n - 1] = ' ';
		for (size_t i = 0; i + 1 < n; i++) if (V(w[i]) && V(w[i + 1])) m[i + 1] = ' ';
	}
	else for (size_t i = 0; i + 3 < n; i++) // VV-V
		if (m[i + 1] != '-' && (w.compare(i, 2, L"ie") == 0 || w.compare(i, 2, L"ai") == 0) && V(w[i + 2]) && good(w, m, i + 2)) m[i + 2] = '-';
}
// compound boundaries of one analysis
inline string boundaries(const wstring & st, size_t n) {
	string m(n, ' ');
	size_t p = !st.empty() && st[0] == L'=' ? 1 : 0;
	for (size_t i = 0; i < n && p < st.size(); i++) {
		if (st[p] == L'-' && p + 1 < st.size() && st[p + 1] == L'=') { if (i) m[i] = '='; p += 2; }
		else if (st[p] == L'=') { m[i] = '-'; p += 2; }
		else { if (st[p] == L'j' || st[p] == L'q') m[i] = 'X'; p++; }
	}
	return m;
}
inline size_t parts(const string & m) { size_t n = 1; for (char c : m) n += broken(c); return n; }
inline string pattern(const wstring & w, const vector<wstring> & structs, const vector<wstring> & structsWithoutDot, const Opt & o, bool any = false) { // any: breaks of any reading instead of all readings
	size_t n = w.size();
	if (n < o.min) return string(n, ' ');
	bool cut = structs.empty() && o.dot && n > 1 && w.back() == L'.';
	vector<string> ms;
	for (auto & s : cut ? structsWithoutDot : structs) { string m = boundaries(s, cut ? n - 1 : n); m.resize(n, ' '); ms.push_back(m); }
	if (ms.size() > 31) ms.resize(31);
	if (ms.empty()) {
		string m(n, o.unknown ? ' ' : 'X');
		if (mayRule(w, o)) for (size_t i = 1; i + 1 < n; i++) if (w[i] == L'-') m[i] = '=';
		ms.push_back(m);
	}
	size_t least = 99; for (auto & m : ms) least = std::min(least, parts(m));
	if (least == 1) { vector<string> k; for (auto & m : ms) if (parts(m) == 1) k.push_back(m); ms = k; } // a simple word needs no compound reading
	size_t len = cut ? n - 1 : n;
	string all;
	for (auto & m : ms) {
		size_t from = 0; while (from < len && m[from] == '=') from++;
		auto rule = [&](size_t a, size_t b) { if (b >= a + o.min && b > a) { string s = m.substr(a, b - a); syllables(w.substr(a, b - a), s, o); m.replace(a, b - a, s); } };
		size_t i = from + 1;
		for (; i < len; i++) if (broken(m[i])) { size_t b = i; char c = m[b]; rule(from, b); from = c == '=' ? b + 1 : b; i = from; }
		if (i == len && from < len) rule(from, len);
		if (all.empty()) { all = m; for (auto & c : all) if (c == 'X') c = ' '; }
		else if (any) { for (size_t k = 0; k < n; k++) if (m[k] == '-') all[k] = '-'; }
		else for (size_t k = 0; k < n; k++) if (!broken(m[k])) all[k] = ' ';
	}
	return all;
}
inline wstring insert(const wstring & w, const string & m, const wstring & hyphen, bool change) {
	wstring r;
	for (size_t i = 0; i < w.size(); i++) {
		if (m[i] == '-') { r += hyphen; r += w[i]; }
		else if (m[i] == '=' && change) r += w[i] == L'-' ? wstring(L"-") : hyphen;
		else r += w[i];
	}
	return r;
}
}
#endif
