// Reference for suggestions: the set of dictionary words reachable by one supported slip.
#ifndef REF_SUGGEST_HPP
#define REF_SUGGEST_HPP
#include "ref_spell.hpp"
namespace sg {
using std::wstring; using std::set; using std::vector;
static const wchar_t * const WRONG_KEY = // pressed, meant
	L".,asiuiotrtders\u0161sanmuilkklkgoi\u00e4\u00f6mnrertvbpbpoythjjhjkdtdsdf\u00f6\u00e4gfghgkfgfdbpbncvcswewvxcz\u017ezxqa\u00e5o\u00e5p\u00e5\u00e4\u00e5\u00f6aeiktyea"
	L"1q2q2w3w3e4e4r5r5t6t6y7y7u8u8i9i9o0o0p+pie"
	L"essdnhujl\u00f6kjop\u00e4pmkrdvgplyhhujide\u00f6lgtfvbvckwaxszaqk\u00e5aa\u00e5e\u00e9a\u00e2kcscijxz"
	L"qwqswqwswdedefrfrgtftgthygyjuhukilokolp\u00f6p\u00e4sesxdrbgfefrftfcgygbgvhyhnhbhgjujmjnkikokmlolp\u00f6p\u00f6\u00e5\u00e4\u00e5zsxdcdcfcxvfbhnjnbmjewp\u00e5aqswszdwdcdxvcawazsq";
static const wchar_t * const WRONG_SOUND = L"aooaoutlsraie\u00e4\u00e4euvvuoddokqpvvpqeeqaddarsetteryyrtuutyiiyuoippio\u00e5hvvhhmmh";
static const wchar_t * const GLYPHS = L"0oliiluooua\u00e4\u00e4ao\u00f6\u00f6os\u0161\u0161sz\u017e\u017eze\u00e9\u00e9ea\u00e2\u00e2apbbpeffeqooqnmmnuvvuoccobhhb_a_b_c_d_e_f_g_h_i_j_k_l_m_n_o_p_q_r_s_t_u_v_w_x_y_z_\u00e4_\u00f6";
static const wchar_t * const INSERTED = L"aitesnulko\u00e4mrvpyhjd\u00f6gfbcw:xzq\u00e5'.";
static const wchar_t * const BACK = L"aou", * const FRONT = L"\u00e4\u00f6y";
inline wstring low(wstring s) { for (auto & c : s) c = ref::lower(c); return s; }
inline vector<std::pair<wchar_t, wchar_t>> pairs(const wchar_t * t) { vector<std::pair<wchar_t, wchar_t>> r; for (; *t; t += 2) r.push_back({t[0], t[1]}); return r; }
inline bool known(const sp::Lexicon & l, const wstring & w) { return !l.find(w).empty(); }
inline sp::R part(const sp::Lexicon & l, wstring w) { if (w.empty()) return sp::FAILED; w[0] = ref::lower(w[0]); return sp::plain(l, w); }
inline bool partOk(const sp::Lexicon & l, const wstring & w) { sp::R r = part(l, w); return r == sp::OK || r == sp::CAP_FIRST; }

// every candidate one slip away (lower case); w is normalised and without an ignored dot
inline set<wstring> typing(const wstring & w) {
	set<wstring> r; size_t n = w.size();
	auto put = [&](const wstring & s) { r.insert(low(s)); };
	// vowel harmony: any set of vowels changed
	vector<size_t> v; wstring lw = low(w);
	for (size_t i = 0; i < n; i++) if (ref::in(lw[i], BACK) || ref::in(lw[i], FRONT)) v.push_back(i);
	if (v.size() <= 7) for (unsigned m = 1; m < 1u << v.size(); m++) {
		wstring s = lw;
		for (size_t i = 0; i < v.size(); i++) if (m >> i & 1) for (int k = 0; k < 3; k++) { if (lw[v[i]] == BACK[k]) s[v[i]] = FRONT[k]; if (lw[v[i]] == FRONT[k]) s[v[i]] = BACK[k]; }
		put(s);
	}
	for (auto * t : {WRONG_KEY, WRONG_SOUND}) for (auto & p : pairs(t)) for (size_t i = 0; i < n; i++) if (lw[i] == p.first) {
		wstring s = lw; s[i] = p.second; put(s);
		if (t == WRONG_KEY && i + 1 < n && lw[i + 1] == p.first) {
			size_t run = 0; while (run < i && lw[i - run - 1] == lw[i]) run++;
			if (run % 2 == 0) { s[i + 1] = p.second; put(s); } // a pair of equal letters
		}
	}
	for (size_t i = 0; i < n; i++) { wstring s = lw; s.erase(i, 1); put(s); }
	for (size_t j = 2; j + 2 <= n; j++) if (w[j - 2] != L'-' && w[j - 1] != L'-' && w[j] != L'-' && w[j + 1] != L'-') put(w.substr(0, j) + L"-" + w.substr(j));
	for (size_t j = 0; j < n; j++) { // doubled letter, unless there are two already
		if (j + 1 < n && w[j] == w[j + 1]) { j++; continue; }
		if (w[j] != L'-' && w[j] != L'\'') put(w.substr(0, j) + w[j] + w.substr(j));
	}
	for (const wchar_t * c = INSERTED; *c; c++) for (size_t j = 0; j <= n; j++) {
		if (j < n && lw[j] == *c) continue;
		if (j > 0 && (j < n ? lw[j - 1] : w[j - 1]) == *c) continue;
		put(lw.substr(0, j) + *c + lw.substr(j));
	}
	size_t far = n <= 8 ? 10 : 50 / n;
	for (size_t i = 0; i < n; i++) for (size_t j = i + 1; j < n && j - i <= far; j++) {
		bool harmony = false;
		for (int k = 0; k < 3; k++) if ((lw[i] == BACK[k] && lw[j] == FRONT[k]) || (lw[i] == FRONT[k] && lw[j] == BACK[k])) harmony = true;
		if (harmony && v.size() <= 7) continue; // same as changing both vowels
		if (harmony) continue;
		wstring s = lw; std::swap(s[i], s[j]); put(s);
	}
	if (n >= 6) for (size_t i = 0; i + 3 < n; i++) if (w.compare(i, 2, w, i + 2, 2) == 0) { wstring s = lw; s.erase(i, 2); put(s); }
	return r;
}
inline set<wstring> glyphs(const wstring & w) {
	set<wstring> r; size_t n = w.size(); auto ps = pairs(GLYPHS);
	for (auto & p : ps) for (size_t i = 0; i < n; i++) if (w[i] == p.first || (w[i] == ref::upper(p.first) && ref::upper(p.first) != p.first)) { wstring s = w; s[i] = p.second; r.insert(low(s)); }
	for (auto & p : ps) for (size_t i = 0; i < n; i++) if (w[i] == p.first) { wstring s = w; s[i] = p.second; for (auto & q : ps) for (size_t j = i; j < n; j++) if (s[j] == q.first) { wstring t = s; t[j] = q.second; r.insert(low(t)); } }
	return r;
}
inline set<wstring> expected(const sp::Lexicon & l, const wstring & w, bool ocr) {
	set<wstring> r;
	if (known(l, w)) r.insert(low(w));
	if (!ocr) { wstring s; for (wchar_t c : w) if (c != 0xAD) s += c; if (s.size() != w.size() && !s.empty() && known(l, s)) r.insert(low(s)); }
	if (!r.empty()) return r;
	for (auto & c : ocr ? glyphs(w) : typing(w)) if (known(l, c)) r.insert(c);
	if (ocr) return r;
	size_t n = w.size();
	for (size_t s = 2; s + 2 <= n; s++) {
		if (w[s - 2] == L'-' || w[s - 1] == L'-' || w[s + 1] == L'-') continue;
		wstring a = w.substr(0, s), b = w.substr(w[s] == L'-' ? s + 1 : s);
		bool ok = partOk(l, a) || (a.back() == L'.' && partOk(l, a.substr(0, s - 1)));
		if (ok && partOk(l, b)) r.insert(low(a) + L" " + low(b));
	}
	return r;
}
}
#endif
