// Reference model of character classes, tokens and sentences, written from the documentation as plain tables/rules.
#ifndef REF_TEXT_HPP
#define REF_TEXT_HPP
#include "mc.hpp"
namespace ref {
enum Cls { LETTER, DIGIT, SPACE, PUNCT, OTHER };
inline bool in(wchar_t c, const wchar_t * set) { for (; *set; set++) if (*set == c) return true; return false; }
inline bool quote(wchar_t c) { return c == 0x22 || c == 0xBB || c == 0x201D; }
inline bool space(wchar_t c) {
	switch (c) {
	case 9: case 10: case 11: case 12: case 13: case 0x20: case 0x85: case 0xA0: case 0x1680: case 0x180E:
	case 0x2028: case 0x2029: case 0x202F: case 0x205F: case 0x3000: return true;
	}
	return c >= 0x2000 && c <= 0x200A;
}
inline Cls cls(wchar_t c) {
	if (c >= L'0' && c <= L'9') return DIGIT;
	if ((c >= L'A' && c <= L'Z') || (c >= L'a' && c <= L'z')) return LETTER;
	if (c >= 0xC0 && c <= 0x2AF) return (c == 0xD7 || c == 0xF7) ? OTHER : LETTER; // Latin without the multiplication and division signs
	if (c >= 0x400 && c <= 0x481) return LETTER; // Cyrillic
	if (c >= 0x48A && c <= 0x527) return LETTER;
	if (c >= 0x1400 && c <= 0x15C3) return LETTER; // Canadian syllabics
	if (c >= 0xFB00 && c <= 0xFB04) return LETTER; // ligatures
	if (space(c)) return SPACE;
	if (quote(c) || in(c, L".,;-!?:'()[]{}/&\u00AD\u2019\u2010\u2011\u2013\u2014\u201C\u2026")) return PUNCT;
	return OTHER;
}
enum Tok { T_NONE = 0, T_WORD = 1, T_PUNCT = 2, T_SPACE = 3, T_UNKNOWN = 4 };
struct Token { int type; size_t len; };

// length of a web address starting at the beginning of t, 0 if none
inline size_t webAddress(const std::wstring & t) {
	size_t start;
	if (t.size() < 12) return 0;
	if (t.compare(0, 7, L"http://") == 0) start = 7;
	else if (t.compare(0, 8, L"https://") == 0) start = 8;
	else return 0;
	size_t i = start;
	while (i < t.size()) {
		Cls k = cls(t[i]);
		if (k == SPACE) break;
		if (k == OTHER && !in(t[i], L"=#%")) break;
		if (t[i] == L'.' && (i + 1 == t.size() || cls(t[i + 1]) == SPACE)) break;
		i++;
	}
	return i;
}
inline size_t mailAddress(const std::wstring & t) {
	if (t.size() < 6) return 0;
	if (webAddress(t)) return 0;
	bool at = false, dot = false;
	size_t i = 0;
	for (; i < t.size(); i++) {
		wchar_t c = t[i];
		Cls k = cls(c);
		if (k == LETTER || k == DIGIT) continue;
		if (k == SPACE) break;
		if (c == L'@') { if (at) return 0; at = true; continue; }
		if (k == OTHER) { if (in(c, L"#$%*+=^_`|~")) continue; break; }
		if (c == L'.' && at) {
			if (i + 1 == t.size() || cls(t[i + 1]) == SPACE) break;
			dot = true; continue;
		}
		if (in(c, L"!&'-/?{}.")) continue;
		break;
	}
	return at && dot ? i : 0;
}
inline size_t wordLength(const std::wstring & t, bool ignoreDot) {
	if (size_t n = webAddress(t)) return n;
	if (size_t n = mailAddress(t)) return n;
	bool number = false, letters = false;
	for (size_t i = 0; i < t.size(); i++) {
		wchar_t c = t[i];
		Cls k = cls(c);
		bool last = i + 1 == t.size();
		Cls nk = last ? OTHER : cls(t[i + 1]);
		if (k == LETTER) { letters = true; number = false; continue; }
		if (k == DIGIT) { number = true; continue; }
		if (k != PUNCT) return i;
		if (in(c, L"':\u2019")) { if (!last && nk == LETTER) continue; return i; }
		if (in(c, L"-\u00AD\u2010\u2011")) {
			if (last || quote(t[i + 1])) return i + 1;
			if (nk == LETTER || nk == DIGIT) continue;
			if (nk == PUNCT) return t[i + 1] == L',' ? i + 1 : i;
			return i + 1;
		}
		if (c == L'.') {
			if (!last && (nk == LETTER || (nk == DIGIT && !letters))) continue;
			return i + (ignoreDot ? 1 : 0);
		}
		if (c == L',') { if (number && !last && nk == DIGIT) continue; return i; }
		return i;
	}
	return t.size();
}
inline Token token(const std::wstring & t, bool ignoreDot) {
	if (t.empty()) return Token{T_NONE, 0};
	Cls k = cls(t[0]);
	if (k == LETTER || k == DIGIT) return Token{T_WORD, wordLength(t, ignoreDot)};
	if (k == SPACE) { size_t i = 1; while (i < t.size() && cls(t[i]) == SPACE) i++; return Token{T_SPACE, i}; }
	if (k == OTHER) return Token{T_UNKNOWN, 1};
	if (in(t[0], L"-\u2010\u2011")) {
		size_t n = t.size() > 1 ? wordLength(t.substr(1), ignoreDot) : 0;
		if (n) return Token{T_WORD, n + 1};
		return Token{T_PUNCT, 1};
	}
	if (t.compare(0, 3, L"...") == 0) return Token{T_PUNCT, 3};
	return Token{T_PUNCT, 1};
}
}
namespace ref {
enum Sent { S_NONE = 0, S_NOSTART = 1, S_PROBABLE = 2, S_POSSIBLE = 3 };
struct Sentence { int type; size_t len; };
typedef std::function<bool(const std::wstring &)> Known;
// is "word." one unit: an initial, an ordinal or date, or an abbreviation of the dictionary
inline bool dottedUnit(const std::wstring & word, const std::function<bool(wchar_t)> & isUpper, const Known & known) {
	if (word.empty()) return false;
	if (word.size() == 1 && isUpper(word[0])) return true;
	bool numeric = true;
	for (wchar_t c : word) if (!(cls(c) == DIGIT || c == L'.' || c == L'-')) numeric = false;
	return numeric || known(word + L".");
}
inline Sentence sentence(const std::wstring & t, const std::function<bool(wchar_t)> & isUpper, const Known & known) {
	std::vector<std::pair<size_t, Token>> toks; // all tokens with their positions
	for (size_t p = 0; p < t.size();) { Token k = token(t.substr(p), false); toks.push_back({p, k}); p += k.len; }
	bool ended = false, quoted = false, weak = false, dotted = false;
	for (size_t i = 0; i < toks.size(); i++) {
		size_t p = toks[i].first; const Token & k = toks[i].second;
		if (ended && !quoted) {
			if (k.type == T_SPACE) continue;
			bool glued = toks[i - 1].second.type != T_SPACE && k.type == T_WORD;
			return Sentence{weak || dotted || glued ? S_POSSIBLE : S_PROBABLE, p};
		}
		if (k.type != T_PUNCT) continue;
		wchar_t c = t[p];
		if (c == L'!' || c == L'?') { ended = true; if (quoted) weak = true; }
		else if (c == 0x2026 || c == L':' || (c == L'.' && k.len == 3)) { ended = weak = true; }
		else if (c == L'.') {
			ended = true;
			// a dot that belongs to a word makes every later end merely possible; a cancelling comma does not take that back
			if (i > 0 && toks[i - 1].second.type == T_WORD && dottedUnit(t.substr(toks[i - 1].first, toks[i - 1].second.len), isUpper, known)) dotted = true;
		}
		else if (quote(c) || c == 0x201C) {
			quoted = !quoted;
			if (!quoted && p + 1 < t.size() && t[p + 1] == L',') { ended = false; weak = false; }
		}
	}
	return Sentence{S_NONE, t.size()};
}
}
namespace ref {
// Letter case over the supported scripts: pairs (upper, lower)
inline wchar_t lower(wchar_t c) {
	auto even = [&](wchar_t a, wchar_t b) { return c >= a && c <= b && (c - a) % 2 == 0; };
	if ((c >= L'A' && c <= L'Z') || (c >= 0xC0 && c <= 0xDE && c != 0xD7) || (c >= 0x410 && c <= 0x42F)) return c + 32;
	if (c >= 0x400 && c <= 0x40F) return c + 80;
	if (c == 0x1B7) return 0x292;
	if (c == 0x4C0) return 0x4CF;
	if (c >= 0x4C1 && c <= 0x4CE) return c % 2 ? c + 1 : c;
	if (even(0x100, 0x136) || even(0x139, 0x147) || even(0x14A, 0x176) || even(0x179, 0x17D) || even(0x1DE, 0x1EE) || even(0x1F8, 0x21E) || even(0x460, 0x480) || even(0x48A, 0x526)) return c + 1;
	return c;
}
inline const std::map<wchar_t, wchar_t> & upperTable() {
	static std::map<wchar_t, wchar_t> m;
	if (m.empty()) for (wchar_t c = 1; c < 0x600; c++) if (lower(c) != c) m[lower(c)] = c;
	return m;
}
inline wchar_t upper(wchar_t c) {
	if (c < 0x80) return c >= L'a' && c <= L'z' ? c - 32 : c;
	auto & m = upperTable(); auto i = m.find(c); return i == m.end() ? c : i->second;
}
inline bool isUpper(wchar_t c) { return lower(c) != c || c == 0x18F; }
inline bool isLower(wchar_t c) { return upper(c) != c; }
inline std::wstring lower(std::wstring s) { for (auto & c : s) c = lower(c); return s; }
// equivalent forms of characters
inline std::wstring normalise(const std::wstring & s) {
	static std::map<std::wstring, wchar_t> pairs;
	if (pairs.empty()) {
		auto add = [&](wchar_t mark, const wchar_t * base, const wchar_t * comp) { for (; *base; base++, comp++) pairs[std::wstring(1, *base) + mark] = *comp; };
		add(0x300, L"AEIOUaeiou", L"\u00C0\u00C8\u00CC\u00D2\u00D9\u00E0\u00E8\u00EC\u00F2\u00F9");
		add(0x301, L"AEIOUYaeiouy", L"\u00C1\u00C9\u00CD\u00D3\u00DA\u00DD\u00E1\u00E9\u00ED\u00F3\u00FA\u00FD");
		add(0x302, L"AEIOUaeiou", L"\u00C2\u00CA\u00CE\u00D4\u00DB\u00E2\u00EA\u00EE\u00F4\u00FB");
		add(0x303, L"ANOano", L"\u00C3\u00D1\u00D5\u00E3\u00F1\u00F5");
		add(0x308, L"AEIOUaeiouy", L"\u00C4\u00CB\u00CF\u00D6\u00DC\u00E4\u00EB\u00EF\u00F6\u00FC\u00FF");
		add(0x30A, L"Aa", L"\u00C5\u00E5");
		add(0x327, L"Cc", L"\u00C7\u00E7");
		add(0x30C, L"SsZz", L"\u0160\u0161\u017D\u017E");
		add(0x306, L"\u0418\u0438", L"\u0419\u0439");
		add(0x300, L"\u0415\u0435", L"\u0400\u0450");
		add(0x308, L"\u0415\u0435\u041E\u043E", L"\u0401\u0451\u04E6\u04E7");
		add(0x301, L"\u0413\u0433", L"\u0403\u0453");
	}
	std::wstring r;
	for (size_t i = 0; i < s.size(); i++) {
		if (i + 1 < s.size()) { auto p = pairs.find(s.substr(i, 2)); if (p != pairs.end()) { r += p->second; i++; continue; } }
		switch (s[i]) {
		case 0x2019: r += L'\''; break;
		case 0x2010: case 0x2011: r += L'-'; break;
		case 0x2103: r += L"\u00B0C"; break;
		case 0x2109: r += L"\u00B0F"; break;
		case 0xFB00: r += L"ff"; break; case 0xFB01: r += L"fi"; break; case 0xFB02: r += L"fl"; break;
		case 0xFB03: r += L"ffi"; break; case 0xFB04: r += L"ffl"; break;
		default: r += s[i];
		}
	}
	return r;
}
}
#endif
