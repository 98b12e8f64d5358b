// Reference meaning of the Finnish lexicon markup, written on lists of symbols (tags and characters).
#ifndef REF_FINNISH_HPP
#define REF_FINNISH_HPP
#include "ref_text.hpp"
#include "vfst.hpp"
namespace fi {
using std::wstring; using std::vector; using std::map; using std::string;
typedef vector<wstring> Syms;
typedef map<string, wstring> Reading;
inline wstring widen(const string & s) {
	wstring r;
	for (size_t i = 0; i < s.size();) {
		unsigned char c = (unsigned char) s[i];
		if (c < 0x80) { r += (wchar_t) c; i++; }
		else if (c < 0xE0) { r += (wchar_t)((c & 31) << 6 | (s[i + 1] & 63)); i += 2; }
		else if (c < 0xF0) { r += (wchar_t)((c & 15) << 12 | (s[i + 1] & 63) << 6 | (s[i + 2] & 63)); i += 3; }
		else { r += (wchar_t)((c & 7) << 18 | (s[i + 1] & 63) << 12 | (s[i + 2] & 63) << 6 | (s[i + 3] & 63)); i += 4; }
	}
	return r;
}
inline Syms syms(const string & markup) { Syms r; for (auto & s : vf::symbols(markup)) if (!vf::isFlag(s)) r.push_back(widen(s)); return r; }
inline bool tag(const wstring & s) { return s.size() > 1; }
inline bool xopen(const wstring & s) { return s.size() == 4 && s[0] == L'[' && s[1] == L'X'; }
inline bool vowel(wchar_t c) { return ref::in(ref::lower(c), L"aeiouy\u00E4\u00F6"); }
inline wstring join(const Syms & s) { wstring r; for (auto & x : s) r += x; return r; }
inline wstring surface(const Syms & s) { wstring r; bool x = false; for (auto & y : s) { if (xopen(y)) x = true; else if (y == L"[X]") x = false; else if (!tag(y) && !x) r += y; } return r; }
inline bool any(const Syms & s, size_t from, const wstring & what) { for (size_t i = from; i < s.size(); i++) if (s[i] == what) return true; return false; }

// hyphens between compound parts
inline bool valid(const Syms & s) {
	wchar_t p2 = 0, p1 = 0;
	bool boundary = false, hyphen = false, allowed = false, allowedNow = false, required = false, missing = false, proper = false, plainNoun = false;
	for (size_t i = 0; i < s.size(); i++) {
		const wstring & y = s[i];
		if (tag(y)) {
			if (y[1] == L'I') {
				wstring f = y.substr(2, 2);
				if (f == L"sf") allowed = allowedNow = true;
				else if (f == L"cu") { boundary = false; allowed = required = true; }
				else if (f == L"ca") { missing = false; plainNoun = false; }
			}
			else if (y[1] == L'L') { if (y[2] == L'e') { proper = true; plainNoun = false; } else if (y[2] == L'n') plainNoun = true; }
			else if (y == L"[Dg]") proper = false;
			if (xopen(y)) { while (i < s.size() && s[i] != L"[X]") i++; }
			else if (y == L"[Bh]") {
				boundary = true; hyphen = false;
				if (missing) return false;
				if (required) missing = true;
			}
		}
		else if (y == L"-") {
			proper = plainNoun = false;
			if (i + 2 < s.size() && s[i + 1] == L"[Bh]") { boundary = hyphen = true; i++; }
		}
		else {
			wchar_t c = y[0];
			if (boundary) {
				if (p1 == 0 || (p2 == L'i' && p1 == L's')) allowed = true;
				if (required && hyphen) required = false;
				if (!(allowed && hyphen)) {
					bool need = (ref::lower(p1) == ref::lower(c) && vowel(p1)) || (p1 >= L'0' && p1 <= L'9');
					if (need != hyphen) return false;
				}
				boundary = false;
				if (allowedNow) allowedNow = false; else allowed = false;
			}
			p2 = p1; p1 = c;
		}
	}
	return !missing && !(proper && plainNoun);
}

inline wstring structure(const Syms & s, size_t wlen) {
	wstring out = L"=";
	size_t missing = wlen, seen = 0, given = 0;
	bool title = false, abbr = false;
	auto put = [&](size_t n) { for (; n; n--) { if (title) out += abbr ? L'j' : L'i', title = false; else out += abbr ? L'q' : L'p'; } };
	auto flush = [&]() { size_t n = seen - given; put(n); missing -= std::min(missing, n); };
	size_t total = join(s).size(), pos = 0;
	for (size_t i = 0; i < s.size(); pos += s[i].size(), i++) {
		const wstring & y = s[i];
		if (tag(y)) {
			if (y.size() == 4 && y[1] == L'B' && y[2] != L'h') {
				if (pos == 1) out += L'=';
				if (seen > given) flush();
				if (pos != 1 && pos + 5 < total && out.back() != L'=') out += L'=';
				seen = given = 0;
			}
			else if (xopen(y)) {
				bool r = y == L"[Xr]";
				if (r) title = false;
				for (pos += y.size(), i++; s[i] != L"[X]"; pos += s[i].size(), i++) if (r && missing) {
					wchar_t c = s[i][0];
					out += c;
					if (c != L'=') { given++; if (c != L'-') missing--; }
				}
			}
			else if (y[1] == L'L') {
				if (y[2] == L'e') { title = true; abbr = false; }
				else if (y == L"[La]") abbr = true;
				else if (y == L"[Lur]") abbr = true;
				else if (y == L"[Lu]") abbr = i + 1 < s.size() && s[i + 1][0] >= L'0' && s[i + 1][0] <= L'9' && pos + 5 < total;
				else abbr = false;
			}
		}
		else if (y == L"-") {
			if (seen > given) { flush(); out += L'-'; seen = given = 0; }
			else if (pos != 0) { if (seen == given) out += L'-'; else seen++; }
			if (missing) missing--;
			if (out.size() == 1) out[0] = L'-';
		}
		else if (y == L":") {
			if (abbr) { if (seen > given) { flush(); seen = given = 0; } abbr = false; }
			out += L':';
			if (missing) missing--;
		}
		else seen++;
	}
	put(missing);
	// proper name overrides
	bool de = false; size_t hyphens = 0;
	for (size_t i = 0; i < s.size(); i++) {
		const wstring & y = s[i];
		if (y == L"[Dg]") { size_t h = 0; for (auto & c : out) { if (c == L'i' && h == hyphens) c = L'p'; else if (c == L'-') h++; } }
		else if (y == L"[De]") de = true;
		else if (y == L"[Ln]") de = false;
		else if (y == L"-") {
			hyphens++;
			if (de) {
				if (i + 1 == s.size() || any(s, i + 1, L"[Lep]")) for (auto & c : out) if (c == L'i' || c == L'p') { c = L'i'; break; }
				break;
			}
		}
	}
	return out;
}

struct Maps {
	map<wstring, wstring> cls, sija, comp, mood, number, person, tense, focus, poss, neg, part;
	Maps() {
		cls = {{L"n", L"nimisana"}, {L"l", L"laatusana"}, {L"nl", L"nimisana_laatusana"}, {L"h", L"huudahdussana"}, {L"ee", L"etunimi"}, {L"es", L"sukunimi"}, {L"ep", L"paikannimi"}, {L"em", L"nimi"}, {L"t", L"teonsana"},
			{L"a", L"lyhenne"}, {L"s", L"seikkasana"}, {L"u", L"lukusana"}, {L"ur", L"lukusana"}, {L"r", L"asemosana"}, {L"c", L"sidesana"}, {L"d", L"suhdesana"}, {L"k", L"kieltosana"}, {L"p", L"etuliite"}};
		sija = {{L"n", L"nimento"}, {L"g", L"omanto"}, {L"p", L"osanto"}, {L"es", L"olento"}, {L"tr", L"tulento"}, {L"ine", L"sisaolento"}, {L"ela", L"sisaeronto"}, {L"ill", L"sisatulento"}, {L"ade", L"ulkoolento"}, {L"abl", L"ulkoeronto"},
			{L"all", L"ulkotulento"}, {L"ab", L"vajanto"}, {L"ko", L"seuranto"}, {L"in", L"keinonto"}, {L"sti", L"kerrontosti"}, {L"ak", L"kohdanto"}};
		comp = {{L"c", L"comparative"}, {L"s", L"superlative"}};
		mood = {{L"n1", L"A-infinitive"}, {L"n2", L"E-infinitive"}, {L"n3", L"MA-infinitive"}, {L"n4", L"MINEN-infinitive"}, {L"n5", L"MAINEN-infinitive"}, {L"t", L"indicative"}, {L"e", L"conditional"}, {L"k", L"imperative"}, {L"m", L"potential"}};
		number = {{L"y", L"singular"}, {L"m", L"plural"}};
		person = {{L"1", L"1"}, {L"2", L"2"}, {L"3", L"3"}, {L"4", L"4"}};
		tense = {{L"p", L"present_simple"}, {L"i", L"past_imperfective"}};
		focus = {{L"kin", L"kin"}, {L"kaan", L"kaan"}};
		poss = {{L"1y", L"1s"}, {L"2y", L"2s"}, {L"1m", L"1p"}, {L"2m", L"2p"}, {L"3", L"3"}};
		neg = {{L"t", L"true"}, {L"f", L"false"}, {L"b", L"both"}};
		part = {{L"v", L"present_active"}, {L"a", L"present_passive"}, {L"u", L"past_active"}, {L"t", L"past_passive"}, {L"m", L"agent"}, {L"e", L"negation"}};
	}
};
inline const Maps & maps() { static Maps m; return m; }

// grammatical attributes: the rightmost tag of each kind decides, compound boundaries cut
inline Reading attributes(const Syms & s) {
	const Maps & m = maps();
	Reading r; bool conv = false, bc = false, classSet = false;
	auto set = [&](const char * k, const map<wstring, wstring> & mp, const wstring & key) { if (r.count(k)) return; auto i = mp.find(key); if (i != mp.end()) r[k] = i->second; };
	bool x = false; (void) x;
	vector<size_t> pos(s.size()); for (size_t i = 0, p = 0; i < s.size(); p += s[i].size(), i++) pos[i] = p;
	for (size_t i = s.size(); i-- > 0;) {
		const wstring & y = s[i];
		if (!tag(y)) continue;
		wstring v = y.substr(2, y.size() - 3);
		wstring c = r.count("CLASS") ? r["CLASS"] : L"";
		bool inflects = c != L"etuliite" && c != L"seikkasana";
		switch (y[1]) {
		case L'L':
			if (classSet) break;
			if (v == L"nl") {
				wstring k = r.count("COMPARISON") ? r["COMPARISON"] : L"";
				r["CLASS"] = conv || k == L"comparative" || k == L"superlative" || s[0] == L"[Lu]" ? L"laatusana" : L"nimisana_laatusana";
			}
			else set("CLASS", m.cls, v);
			classSet = true; break;
		case L'N': if (inflects) set("NUMBER", m.number, v); break;
		case L'P': set("PERSON", m.person, v); break;
		case L'S': if (inflects) { set("SIJAMUOTO", m.sija, v); if (v == L"sti") conv = true; } break;
		case L'T': if (c.empty()) set("MOOD", m.mood, v); break;
		case L'A': set("TENSE", m.tense, v); break;
		case L'F': if (v == L"ko") r["KYSYMYSLIITE"] = L"true"; else set("FOCUS", m.focus, v); break;
		case L'O': set("POSSESSIVE", m.poss, v); break;
		case L'C': if (c.empty()) set("COMPARISON", m.comp, v); break;
		case L'E': set("NEGATIVE", m.neg, v); break;
		case L'R': if (!bc && (c.empty() || c == L"laatusana" || s.back() == L"[Ln]")) set("PARTICIPLE", m.part, v); break;
		case L'I': {
			wstring mood = r.count("MOOD") ? r["MOOD"] : L"";
			if (v == L"vj") { if (s[0] != L"-") r["MALAGA_VAPAA_JALKIOSA"] = L"true"; }
			else if (v == L"ca") { if (!any(s, i, L"[Bc]") && !any(s, i, L"[Ll]") && (c.empty() || c.compare(0, 8, L"nimisana") == 0)) r["POSSIBLE_GEOGRAPHICAL_NAME"] = L"true"; }
			else if (mood != L"E-infinitive" && mood != L"MINEN-infinitive" && mood != L"MA-infinitive" && (c.empty() || c == L"teonsana")) {
				if (v == L"ra") r["REQUIRE_FOLLOWING_VERB"] = L"A-infinitive";
				else if (v == L"rm") r["REQUIRE_FOLLOWING_VERB"] = L"MA-infinitive";
			}
			break;
		}
		case L'B':
			if (y == L"[Bc]" && pos[i] >= 5) {
				bool afterHyphen = (i > 0 && s[i - 1] == L"-") || (i > 1 && s[i - 1] == L"[Bh]" && s[i - 2] == L"-");
				if (!classSet && c.empty() && afterHyphen) { r["CLASS"] = L"etuliite"; classSet = true; }
				bc = true;
			}
			break;
		}
	}
	auto get = [&](const char * k) { return r.count(k) ? r[k] : wstring(); };
	wstring mood = get("MOOD");
	if (r.count("NEGATIVE") && ((r.count("CLASS") && get("CLASS") != L"teonsana") || mood == L"MINEN-infinitive" || mood == L"E-infinitive" || mood == L"MA-infinitive")) r.erase("NEGATIVE");
	if (get("PARTICIPLE") == L"past_passive") r["CLASS"] = L"laatusana";
	if (get("SIJAMUOTO") == L"kerrontosti") r.erase("NUMBER");
	if (!r.count("COMPARISON")) { if (get("CLASS") == L"laatusana" || get("CLASS") == L"nimisana_laatusana") r["COMPARISON"] = L"positive"; }
	else if (get("CLASS") == L"nimisana") r.erase("COMPARISON");
	return r;
}

inline bool numeralBase(const Syms & s, size_t from, wstring & out) {
	bool xp = false, xr = false, passed = false, digits = false;
	wstring b;
	for (size_t i = from; i < s.size(); i++) {
		const wstring & y = s[i];
		if (i == from && !tag(y) && (ref::cls(y[0]) == ref::DIGIT || y == L"-")) digits = true;
		if (tag(y)) {
			if (digits) { digits = false; passed = true; }
			bool last = i + 1 == s.size();
			if (y == L"[Xp]" || y == L"[Xj]") xp = true;
			else if (y == L"[Xr]" || y == L"[Xs]") xr = true;
			else if (y == L"[Bc]") { if (last) return false; passed = false; }
			else if (!last && (y == L"[Ln]" || y == L"[Ll]" || y == L"[Lnl]")) return false;
			else if (y == L"[X]") { if (xp) { xp = false; passed = true; } xr = false; }
		}
		else if (xr) continue;
		else if (xp || digits || !passed || y == L"-") b += y;
	}
	out += b;
	return true;
}
inline wstring baseform(const Syms & s, const wstring & st) {
	wstring b, xp; size_t xpAt = 0, hyphensInXp = 0, sp = 0;
	bool haveXp = false, de = false, ignoreDe = false, classSeen = false;
	auto plain = [&](bool cap) { wstring r; bool first = true; for (wchar_t c : xp) { if (c != L'=') r += first && cap ? ref::upper(c) : c; first = false; } return r; };
	for (size_t i = 0; i < s.size(); i++) {
		const wstring & y = s[i];
		if (tag(y)) {
			if (xopen(y)) {
				bool keep = y == L"[Xp]" || y == L"[Xj]";
				if (keep) { xp.clear(); xpAt = b.size(); hyphensInXp = 0; haveXp = true; }
				for (i++; s[i] != L"[X]"; i++) if (keep) { xp += s[i]; if (s[i] == L"-") hyphensInXp++; }
			}
			else if (y == L"[Lu]" && !classSeen) {
				classSeen = true;
				wstring n = b;
				if (numeralBase(s, i + 1, n)) return n;
			}
			else if (y == L"[De]") de = !ignoreDe;
			else if (y[1] == L'L') { classSeen = true; de = false; ignoreDe = !(y[2] == L'l' || y == L"[Lnl]"); }
			continue;
		}
		wchar_t c = y[0];
		if (c == L'-') {
			if (hyphensInXp > 0) hyphensInXp--;
			else {
				bool is = i >= 2 && s[i - 2] == L"i" && s[i - 1] == L"s";
				if (de && haveXp && !is && any(s, i, L"[Lep]")) { b.resize(xpAt); b += plain(true); }
				haveXp = false;
			}
			de = false;
		}
		while (sp < st.size()) { wchar_t p = st[sp++]; if (p != L'=') { if (p == L'i' || p == L'j') c = ref::upper(c); break; } }
		b += c;
	}
	if (haveXp) { b.resize(xpAt); b += plain(false); }
	return b;
}
inline void debugAttributes(const Syms & s, Reading & r) {
	wstring ids, bases, xs, xp; size_t lastIds = 0, lastBases = 0; bool content = false, anyXs = false;
	auto end = [&]() { if (!xs.empty()) { ids += L"(w" + xs + L")"; xs.clear(); } if (!xp.empty()) { bases += L"(" + xp + L")"; xp.clear(); } };
	for (size_t i = 0; i < s.size(); i++) {
		const wstring & y = s[i];
		bool hb = y == L"-" && i + 1 < s.size() && s[i + 1][0] == L'[' && s[i + 1].size() > 1 && s[i + 1][1] == L'B';
		if (hb || (tag(y) && y[1] == L'L')) { content = false; end(); if (hb) { ids += L"+-"; bases += L"+-"; i++; } }
		else if (xopen(y)) {
			wchar_t k = y[2]; wstring t;
			if (k == L's') anyXs = true;
			if (k == L'j' && content) { end(); lastIds = ids.size(); lastBases = bases.size(); }
			for (i++; s[i] != L"[X]"; i++) t += s[i];
			if (k == L's') xs = t; else if (k == L'p') xp = t; else if (k == L'j') xp = t.empty() ? t : L"+" + t;
		}
		else if (tag(y)) continue;
		else {
			if (!content) { ids += L'+'; bases += L'+'; lastIds = ids.size(); lastBases = bases.size(); content = true; }
			ids += y; bases += y;
		}
	}
	if (!xp.empty()) {
		bases.resize(lastBases); ids.resize(lastIds);
		if (!bases.empty() && xp[0] == L'+' && bases.back() == L'+') { bases.pop_back(); ids.pop_back(); }
		for (wchar_t c : xp) if (c != L'=') { bases += c; ids += c; }
		bases += L"(" + xp + L")";
	}
	if (!xs.empty()) ids += L"(w" + xs + L")";
	if (anyXs) r["WORDIDS"] = ids;
	r["WORDBASES"] = bases;
}
// all readings produced by one lexicon path
inline vector<Reading> readings(const Syms & s) {
	vector<Reading> out;
	if (!valid(s)) return out;
	size_t wlen = surface(s).size();
	Reading r = attributes(s);
	wstring st = structure(s, wlen);
	r["STRUCTURE"] = st;
	Reading second; bool dup = false;
	if (r.count("CLASS") && r["CLASS"] == L"nimisana" && s[0] != L"-" && s[0] != L"[La]") {
		// an organisation name ending a compound can also be a proper name
		for (size_t i = s.size(); i-- > 0;) {
			if (s[i] == L"[Bc]") break;
			if (s[i] == L"[Ion]") {
				bool earlier = false; for (size_t j = 0; j < i; j++) if (s[j] == L"[Bc]") earlier = true;
				if (earlier) { second = r; dup = true; }
				break;
			}
		}
	}
	wstring b = baseform(s, st);
	if (!b.empty()) r["BASEFORM"] = b;
	r["FSTOUTPUT"] = join(s);
	debugAttributes(s, r);
	out.push_back(r);
	if (dup) {
		second["CLASS"] = L"nimi"; second.erase("POSSIBLE_GEOGRAPHICAL_NAME");
		wstring ns = st; if (ns.size() >= 2) ns[1] = L'i';
		second["STRUCTURE"] = ns;
		wstring nb = baseform(s, ns); if (!nb.empty()) second["BASEFORM"] = nb;
		out.push_back(second);
	}
	return out;
}
}
#endif
