// Reference for the Finnish grammar rules: given a text and a lexicon, the list of errors.
#ifndef REF_GRAMMAR_HPP
#define REF_GRAMMAR_HPP
#include "ref_spell.hpp"
namespace gr {
using std::wstring; using std::string; using std::vector; using std::map;
enum Code { SPELLING = 1, SPACES, SPACE_COMMA, COMMAS, STARTER, LOWERCASE, UPPERCASE, REPEATED, NO_END, QUOTE_END, FOREIGN_QUOTE, PARENTHESIS, NEGATIVE, A_INF, MA_INF, CONJUNCTION, NO_VERB, VERBS };
struct Error { int code; size_t pos, len; vector<wstring> fix; };
struct Options { bool titles = false, unfinished = false, bullets = false; static Options bits(unsigned b) { Options o; o.titles = b & 1; o.unfinished = b & 2; o.bullets = b & 4; return o; } };
enum Inf { NONE, A, MA };
struct Word { // what the lexicon says about a word
	bool valid = false, lowerOnly = true, placeGenitive = false, maybePlace = false;
	bool maybeVerb = false, verb = false, positive = false, negation = false, maybeConj = false, conj = false;
	Inf needs = NONE, is = NONE;
};
struct Token { int type; wstring s; size_t pos; Word w; bool afterStop = false; size_t end() const { return pos + s.size(); } };
typedef vector<Token> Sentence;
struct Lexicon {
	sp::Lexicon spell;
	map<wstring, vector<fi::Reading>> readings;
	vector<std::pair<wstring, wstring>> rules; // wrong phrase, right phrase
	void add(const string & markup) { spell.add(markup); fi::Syms s = fi::syms(markup); for (auto & r : fi::readings(s)) readings[ref::lower(fi::surface(s))].push_back(r); }
};
inline wstring value(const fi::Reading & r, const char * k) { auto i = r.find(k); return i == r.end() ? L"" : i->second; }
inline Word describe(const Lexicon & l, const wstring & token) {
	Word w; wstring t; for (wchar_t c : token) if (c != 0xAD) t += c;
	auto it = l.readings.find(ref::lower(t));
	if (t.empty() || it == l.readings.end() || it->second.empty()) return w;
	const auto & rs = it->second;
	w.valid = true; w.verb = w.positive = w.negation = w.conj = true;
	vector<Inf> needs; Inf is = NONE; bool any = false;
	for (auto & r : rs) {
		wstring st = value(r, "STRUCTURE"), c = value(r, "CLASS"), mood = value(r, "MOOD"), person = value(r, "PERSON"), neg = value(r, "NEGATIVE"), sija = value(r, "SIJAMUOTO"), req = value(r, "REQUIRE_FOLLOWING_VERB");
		if (st.size() < 2 || (st[1] != L'p' && st[1] != L'q')) { w.lowerOnly = false; if (c == L"paikannimi" && sija == L"omanto") w.placeGenitive = true; }
		bool conj = c == L"sidesana" || (c == L"kieltosana" && token.back() == 0xE4);
		if (conj) w.maybeConj = true; else w.conj = false;
		if (c != L"kieltosana") w.negation = false;
		if (c.empty()) w.maybeVerb = true;
		if (c == L"teonsana") {
			bool conditional3 = (mood.empty() || mood == L"conditional") && (person.empty() || person == L"3");
			if (neg != L"false" || conditional3) w.positive = false;
			if (mood != L"A-infinitive" && mood != L"E-infinitive" && neg != L"true") w.maybeVerb = true;
			if (mood != L"indicative") w.verb = false;
		}
		else w.positive = w.verb = false;
		if (value(r, "POSSIBLE_GEOGRAPHICAL_NAME") == L"true") w.maybePlace = true;
		needs.push_back(req == L"A-infinitive" ? A : req == L"MA-infinitive" ? MA : NONE);
		Inf f = mood == L"A-infinitive" ? A : mood == L"MA-infinitive" ? MA : NONE;
		if (f != NONE) { if (!any) { is = f; any = true; } else if (is != f) is = NONE; }
		else if (value(r, "PARTICIPLE") == L"agent" && sija == L"vajanto") is = NONE;
	}
	bool same = true; for (Inf n : needs) if (n != needs[0]) same = false;
	w.needs = same ? needs[0] : NONE;
	w.is = is;
	return w;
}
inline bool word(const Token & t) { return t.type == ref::T_WORD; }
inline bool punct(const Token & t) { return t.type == ref::T_PUNCT; }
inline bool space(const Token & t) { return t.type == ref::T_SPACE; }

inline vector<Sentence> split(const Lexicon & l, const wstring & text, bool & tooLong) {
	vector<Sentence> out; tooLong = false;
	auto known = [&](const wstring & w) { return sp::tweaked(l.spell, w, false) != sp::FAILED; };
	size_t pos = 0;
	for (;;) {
		size_t end = pos; int type;
		do { ref::Sentence s = ref::sentence(text.substr(end), [](wchar_t c) { return ref::isUpper(c); }, known); end += s.len; type = s.type; } while (type == ref::S_POSSIBLE);
		Sentence s; bool stop = false;
		for (size_t p = pos; p < end;) {
			ref::Token k = ref::token(text.substr(p, end - p), false);
			Token t{k.type, text.substr(p, k.len), p, Word()};
			if (word(t)) { t.w = describe(l, t.s); if (stop) { t.afterStop = true; stop = false; } }
			else if (punct(t) && (t.s.size() == 3 || ref::in(t.s[0], L".:\u2026\u2013\u2014"))) stop = true;
			s.push_back(t); p += k.len;
		}
		if (s.size() > 500) { tooLong = true; return out; }
		out.push_back(s); pos = end;
		if (type == ref::S_NONE || out.size() == 200) return out;
	}
}
inline bool chapter(const wstring & w) { bool digit = false; for (wchar_t c : w) { if (c >= L'0' && c <= L'9') digit = true; else if (c == L'.' && digit) digit = false; else return false; } return digit || w.empty(); }
inline bool integer(const wstring & w) { for (wchar_t c : w) if (c < L'0' || c > L'9') return false; return true; }
inline bool listItem(const wstring & w) { if (w.size() == 1 || chapter(w)) return true; for (wchar_t c : w) if (!ref::in(c, L"iIvVxX")) return false; return true; }

struct Checker {
	const Lexicon & l; Options o; vector<Error> errors;
	void err(int code, size_t pos, size_t len, const vector<wstring> & fix = {}) { errors.push_back(Error{code, pos, len, fix}); }

	void punctuation(const Sentence & s) {
		for (size_t i = 0; i < s.size(); i++) {
			const Token & t = s[i];
			bool commaNext = i + 1 < s.size() && punct(s[i + 1]) && s[i + 1].s[0] == L',';
			if (space(t)) {
				if (t.s.size() > 1) err(SPACES, t.pos, t.s.size(), {L" "});
				else if (commaNext) err(SPACE_COMMA, t.pos, 2, {L","});
			}
			else if (punct(t)) {
				if (t.s[0] == L'[' && i + 2 < s.size() && s[i + 2].s[0] == L']') { i += 2; continue; } // [2]
				if (i == 0) {
					if (ref::in(t.s[0], L"()'-\u201C\u2013\u2014") || ref::quote(t.s[0])) continue;
					if (t.pos == 0) err(STARTER, 0, 1); else err(STARTER, t.pos - 1, 2);
				}
				else if (t.s[0] == L',' && commaNext) err(COMMAS, t.pos, 2, {L","});
			}
		}
		for (size_t i = 0; i + 2 < s.size(); i++) if (punct(s[i])) {
			wchar_t c = s[i].s[0];
			if (c == 0x201C) { err(FOREIGN_QUOTE, s[i].pos, 1, {L"\u201D"}); break; }
			if (!punct(s[i + 1]) || !ref::quote(s[i + 1].s[0]) || !punct(s[i + 2]) || s[i + 2].s[0] != L',') continue;
			wchar_t q = s[i + 1].s[0];
			if (c == L'.') err(QUOTE_END, s[i].pos, 3, {wstring{q, L','}});
			else if (c == L'!' || c == L'?') err(QUOTE_END, s[i].pos, 3, {wstring{c, q}});
		}
		for (size_t i = 0; i + 2 < s.size(); i++) if (word(s[i]) && space(s[i + 1]) && word(s[i + 2])) {
			const wstring & a = s[i].s;
			if (ref::lower(a) != ref::lower(s[i + 2].s) || (a[0] >= L'0' && a[0] <= L'9') || a == L"ollut" || a == L"olleet" || a == L"sill\u00e4") continue;
			err(REPEATED, s[i].pos, s[i + 2].end() - s[i].pos, {a});
		}
	}
	static bool starts(const wstring & s, const wstring & p) { return s.compare(0, p.size(), p) == 0; }
	void verbs(const Sentence & s) {
		size_t begin = s[0].pos;
		[&]() {
			if (punct(s[0])) return;
			if (o.bullets && begin == 0 && (ref::isLower(s[0].s[0]) || !word(s[0]) || !s[0].w.lowerOnly)) return;
			int words = 0; bool any = false; const Token * last = nullptr; int open = -1;
			for (size_t i = 0; i < s.size(); i++) {
				const Token & t = s[i];
				if (t.s[0] == L'\t') return;
				if (word(t)) {
					words++;
					if (!t.w.valid || t.w.maybeVerb || t.w.negation) any = true;
					bool pairs = i + 2 < s.size() && ((starts(t.s, L"siin\u00e4") && starts(s[i + 2].s, L"miss\u00e4")) || (starts(t.s, L"k\u00e4vi") && starts(s[i + 2].s, L"miten")));
					if (t.w.maybeConj || pairs) open = -1;
					else if (t.w.verb) {
						if (open < 0) open = (int) i;
						else {
							if (!(i == (size_t) open + 2 && t.s == s[open].s)) err(VERBS, s[open].pos, t.end() - s[open].pos);
							open = -1;
						}
					}
				}
				else if (punct(t)) open = -1;
				if (!space(t)) last = &t;
			}
			if (any || words < 2 || !last || !ref::in(last->s[0], L".?") || last->s == L"...") return;
			err(NO_VERB, begin, last->end() - begin);
		}();
		auto adjacent = [&](std::function<int(const Word &, const Word &)> f) {
			for (size_t i = 0; i + 2 < s.size(); i++) if (word(s[i]) && space(s[i + 1]) && word(s[i + 2])) if (int c = f(s[i].w, s[i + 2].w)) err(c, s[i].pos, s[i + 2].end() - s[i].pos);
		};
		adjacent([](const Word & a, const Word & b) { return a.negation && b.positive ? NEGATIVE : 0; });
		adjacent([](const Word & a, const Word & b) { return a.needs == A && b.is == MA ? A_INF : a.needs == MA && b.is == A ? MA_INF : 0; });
		size_t n = s.size(); if (space(s[n - 1])) n--;
		if (n >= 2 && word(s[n - 2]) && s[n - 2].w.conj && s[n - 2].s != L"vaan" && s[n - 1].s == L".") err(CONJUNCTION, s[n - 2].pos, s[n - 2].s.size());
	}
	// phrase rules: text with single spaces and without soft hyphens, starting at any word and ending at the end of a token
	void phrases(const Sentence & s) {
		auto plain = [](const Token & t) { wstring r; if (space(t)) return wstring(L" "); for (wchar_t c : t.s) if (c != 0xAD) r += c; return r; };
		auto match = [&](size_t i, bool lowerFirst, bool & prefix) -> bool {
			wstring rest; vector<size_t> ends;
			for (size_t k = i; k < s.size(); k++) { wstring p = plain(s[k]); if (k == i && lowerFirst && !p.empty()) p[0] = ref::lower(p[0]); rest += p; ends.push_back(rest.size()); }
			prefix = false;
			for (auto & r : l.rules) if (starts(rest, r.first)) {
				prefix = true;
				for (size_t k = 0; k < ends.size(); k++) if (ends[k] == r.first.size()) {
					wstring fix = r.second; if (lowerFirst) fix[0] = ref::upper(fix[0]);
					err(SPELLING, s[i].pos, s[i + k].end() - s[i].pos, {fix});
					return true;
				}
			}
			return false;
		};
		bool again = false, p;
		for (size_t i = 0; i < s.size(); i++) if (word(s[i])) { match(i, false, p); if (!p && i == 0 && ref::isUpper(s[0].s[0])) again = true; }
		if (again) match(0, true, p);
	}
	// capitalisation: the words outside shouted sentences, with the marks between them
	void capitals(const vector<Sentence> & paragraph) {
		vector<const Token *> all;
		for (auto & s : paragraph) {
			bool skip = true;
			for (auto & t : s) { if (t.s[0] == 0x201C) { skip = true; break; } if (word(t)) { bool lowerSeen = false; for (wchar_t c : t.s) if (ref::isLower(c)) lowerSeen = true; if (lowerSeen) { skip = false; break; } } }
			if (!skip) for (auto & t : s) all.push_back(&t);
		}
		bool trailingSkipped = false; // marks after the last word are looked at only if something follows it
		if (!paragraph.empty() && !all.empty()) { const Token & last = paragraph.back().back(); trailingSkipped = all.back() != &last; }
		struct Item { const Token * w; const Token * before; vector<const Token *> seps; };
		vector<Item> items; items.push_back(Item{nullptr, nullptr, {}}); // the first item is the start of the paragraph
		for (auto * t : all) { if (word(*t)) { const Token * b = items.back().seps.empty() ? items.back().w : items.back().seps.back(); items.push_back(Item{t, b, {}}); } else items.back().seps.push_back(t); }
		enum St { START, UP, LOW, ANY, QUOTED } st = START;
		vector<wchar_t> open; bool ended = false;
		auto scan = [&](const vector<const Token *> & seps, size_t from) {
			bool quotes = false;
			for (size_t i = from; i < seps.size(); i++) if (punct(*seps[i])) {
				wchar_t c = seps[i]->s[0];
				if (ref::quote(c)) { quotes = true; if (!open.empty() && open.back() == c) open.pop_back(); else open.push_back(c); }
				else if (c == L'(' || c == L'[') open.push_back(c);
				else if (c == L')' || c == L']') { if (open.empty()) err(PARENTHESIS, seps[i]->pos, 1); else if (open.back() == L'(' || open.back() == L'[') open.pop_back(); }
				else if (c == L'.' || c == L'!' || c == L'?') ended = true;
			}
			return quotes;
		};
		auto has = [](const vector<const Token *> & v, const wstring & s) { for (auto * t : v) if (t->s == s) return true; return false; };
		auto stops = [](const vector<const Token *> & v) { for (size_t i = v.size(); i-- > 0;) if (punct(*v[i]) && v[i]->s[0] != L',') return ref::in(v[i]->s[0], L".?!"); return false; };
		for (size_t k = 0; k < items.size(); k++) {
			const Item & it = items[k];
			// the last word of the paragraph is judged only if something follows it
			if (k + 1 == items.size() && it.w && it.seps.empty() && !trailingSkipped) break;
			const auto & seps = it.seps;
			if (!it.w) {
				scan(seps, 0);
				st = !open.empty() ? QUOTED : o.bullets || has(seps, L"-") ? ANY : UP;
				continue;
			}
			const Token & w = *it.w;
			if (st == QUOTED) {
				bool q = scan(seps, 0);
				if (!open.empty()) continue;
				if (stops(seps)) { ended = false; st = UP; }
				else if (q || ended) { ended = false; st = ANY; }
				else st = LOW;
				continue;
			}
			bool item = !seps.empty() && seps[0]->s[0] == L')' && listItem(w.s);
			if (st == LOW && w.w.valid && w.w.lowerOnly && ref::isUpper(w.s[0]) && !w.afterStop && w.s.size() > 1 && w.s[1] != L'-' && w.s[1] != L':' && sp::caseOf(w.s) != sp::UPPER && !w.w.maybePlace) {
				wstring f = w.s; f[0] = ref::lower(f[0]); err(LOWERCASE, w.pos, w.s.size(), {f});
			}
			if (st == UP && !item && !ref::isUpper(w.s[0]) && ref::cls(w.s[0]) != ref::DIGIT && !w.afterStop) {
				wstring f = w.s; f[0] = ref::upper(f[0]); err(UPPERCASE, w.pos, w.s.size(), {f});
			}
			if (item) { scan(seps, 1); st = ANY; continue; }
			scan(seps, 0);
			if (!open.empty()) { st = QUOTED; continue; }
			bool institution = w.w.placeGenitive && seps.size() == 1 && seps[0]->s[0] == L' ';
			if (has(seps, L"\t")) st = ANY;
			else if (st != ANY && institution) st = ANY;
			else if (st != LOW && o.titles && chapter(w.s)) st = ANY;
			else if (st == UP && integer(w.s) && it.before && !space(*it.before)) st = ANY;
			else if (stops(seps)) { ended = true; st = UP; }
			else st = LOW;
		}
	}
	vector<Error> run(const wstring & text) {
		if (text.empty()) return {};
		bool tooLong; vector<Sentence> p = split(l, text, tooLong);
		if (tooLong) return {};
		if (p.size() == 1) {
			bool ws = false; for (auto & t : p[0]) if (space(t)) ws = true;
			if (!ws && (p[0].size() > 2 || p[0].empty() || !word(p[0][0]))) return {};
		}
		for (auto & s : p) { punctuation(s); verbs(s); if (!l.rules.empty()) phrases(s); }
		capitals(p);
		const Token & last = p.back().back();
		if (!(o.titles && p.size() == 1) && !o.unfinished && !o.bullets && !punct(last)) err(NO_END, last.pos, last.s.size());
		std::stable_sort(errors.begin(), errors.end(), [](const Error & a, const Error & b) { return a.pos < b.pos; });
		return errors;
	}
};
inline vector<Error> check(const Lexicon & l, const wstring & text, const Options & o) { Checker c{l, o, {}}; return c.run(text); }
inline string showErrors(const vector<Error> & v) {
	string r; for (auto & e : v) { r += mc::num(e.code) + "@" + mc::num((long long) e.pos) + "+" + mc::num((long long) e.len); for (auto & f : e.fix) r += ">" + mc::utf8(f); r += " "; }
	return r;
}
}
#endif
