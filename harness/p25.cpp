// P25: the Finnish dictionaries that voikko-fi builds. The cases come from a plan written by checks/p25.py; networks are walked exhaustively within the
// bounds of the plan and compared with the network of the published dictionary or with what the selected vocabulary must give.
#include "api.hpp"
#include "dictnet.hpp"
using namespace mc; using dn::Net; using dn::Walker; using dn::Bounds;
static std::map<string, std::unique_ptr<Net>> nets;
static const Net & net(const string & p) {
	auto & n = nets[p]; if (n) return *n;
	n.reset(new Net); if (!n->load(p)) { fprintf(stderr, "no network %s\n", p.c_str()); _exit(3); }
	return *n;
}
static std::map<string, VoikkoHandle *> handles;
static VoikkoHandle * handle(const string & dir, const string & variant) {
	auto & h = handles[dir + "\t" + variant]; if (h) return h;
	const char * e = nullptr; h = voikkoInit(&e, ("fi-x-" + variant).c_str(), dir.c_str());
	if (h) { voikkoSetBooleanOption(h, VOIKKO_OPT_IGNORE_NONWORDS, 0); }
	return h;
}
static std::map<string, vector<string>> lists;
static const vector<string> & list(const string & p) { auto & v = lists[p]; if (v.empty()) { std::ifstream f(p); string l; while (getline(f, l)) v.push_back(l); } return v; }
static vector<string> split(const string & s, char c) { vector<string> r; size_t i = 0; for (;;) { size_t j = s.find(c, i); r.push_back(s.substr(i, j - i)); if (j == string::npos) return r; i = j + 1; } }
static Bounds bounds(const string & s) { auto v = split(s, ','); Bounds b; b.parts = stoi(v[0]); b.der = stoi(v[1]); b.poss = stoi(v[2]); b.clit = stoi(v[3]); b.bare = v[4] == "1"; b.letters = stoi(v[5]); return b; }
static string skeleton(const string & out) { string r; bool in = false; for (char c : out) { if (c == '[') in = true; if (in) r += c; if (c == ']') in = false; } return r; }
static std::unordered_set<uint64_t> seen;
// The published dictionary has two mistakes that the tree does not have any more (DESIGN.md, P26): the passive past "-sttiin" beside "-stiin" of
// verbs like ahmaista, and "-iihn" instead of "-iihin" in the plural illative of nouns like kauris.
static std::unordered_map<string, string> published; // corrected word -> as published
static bool correct(string & w, const string & tags) { // false: not a word
	if (w.find("sttiin") != string::npos && tags.find("[Tt][Ai][P4]") != string::npos) return false;
	size_t x = tags.rfind("[Sill][Nm]"), b = tags.rfind("[Xp]"), e = b == string::npos ? b : tags.find("[X]", b); if (x == string::npos || e == string::npos || e > x) return true;
	string between = tags.substr(e + 3, x - e - 3); while (between.compare(0, 4, "[Bm]") == 0) between.erase(0, 4);
	if (!between.empty() || e < 2 || tags.compare(e - 2, 2, "is")) return true;
	size_t p = w.rfind("iih"); if (p == string::npos) return true;
	p += 3; if (p >= w.size() || w[p] == 'i') return true;
	string old = w; w.insert(p, "i"); published[w] = old; return true;
}
static vector<string> walk(const string & n, const vector<string> & allowed, const Bounds & b, const string & first, bool & failed) {
	vector<string> r; Walker w(net(n), allowed, b); w.first = first; uint64_t last = 0;
	bool ref = n.find("/p25/ref/") != string::npos;
	w.found = [&](const string & j, const string & o) { string i = j; if (!ref || correct(i, o)) r.push_back(i + "\t" + o); if (!(++last & 0xFFF)) E().sh->progress++; };
	w.run(); E().sh->progress++; std::sort(r.begin(), r.end()); r.erase(std::unique(r.begin(), r.end()), r.end()); failed = w.failed; E().step(r.size()); return r;
}
static string compare(const vector<string> & a, const vector<string> & b, bool equal) {
	vector<string> d; std::set_difference(b.begin(), b.end(), a.begin(), a.end(), std::back_inserter(d));
	if (!d.empty()) return num((long long) d.size()) + " missing, first: " + d[0];
	if (!equal) return "";
	std::set_difference(a.begin(), a.end(), b.begin(), b.end(), std::back_inserter(d));
	return d.empty() ? "" : num((long long) d.size()) + " not in the language, first: " + d[0];
}
// the forms of an invented word, made from those of a reference word: stems exchanged, harmony of the endings a, ä or both (b)
static vector<string> like(const string & n, const string & ref, const string & stem, const string & newStem, const string & harmony, bool & failed) {
	vector<string> one{ref}, r; Bounds b;
	for (auto & x : walk(n, one, b, "", failed)) {
		size_t t = x.find('\t'); string s = x.substr(0, t), o = x.substr(t + 1);
		if (s.compare(0, stem.size(), stem)) { failed = true; continue; }
		string e = s.substr(stem.size()), f; for (char c : e) if (c == 'a') f += "ä"; else f += c;
		size_t p = o.find("[Xp]"), q = o.find("[X]", p); o.erase(p, q + 3 - p);
		if (harmony != "ä") r.push_back(newStem + e + "\t" + o);
		if (harmony != "a") r.push_back(newStem + f + "\t" + o);
	}
	std::sort(r.begin(), r.end()); r.erase(std::unique(r.begin(), r.end()), r.end()); return r;
}
static vector<string> plain(const vector<string> & v, const string & source, bool & failed) { // without base forms and part boundaries; with the given source id
	vector<string> r;
	for (auto & x : v) {
		size_t t = x.find('\t'); string s = x.substr(0, t), o = x.substr(t + 1); size_t p = o.find("[Xs]");
		if ((p != string::npos) != !source.empty()) failed = true;
		if (p != string::npos) { size_t q = o.find("[X]", p); if (o.substr(p + 4, q - p - 4) != source) failed = true; o.erase(p, q + 3 - p); }
		p = o.find("[Xp]"); if (p != string::npos) { size_t q = o.find("[X]", p); o.erase(p, q + 3 - p); }
		while ((p = o.find("[Bm]")) != string::npos) o.erase(p, 4);
		r.push_back(s + "\t" + o);
	}
	std::sort(r.begin(), r.end()); r.erase(std::unique(r.begin(), r.end()), r.end()); return r;
}
static wstring wide(const string & s) { wstring w; size_t i = 0; while (i < s.size()) { unsigned char c = s[i]; int n = c < 0x80 ? 1 : c < 0xE0 ? 2 : c < 0xF0 ? 3 : 4; uint32_t v = n == 1 ? c : c & (0x7F >> n); for (int k = 1; k < n; k++) v = v << 6 | (s[i + k] & 63); w += (wchar_t) v; i += n; } return w; }
// of words of one part; which words may be joined is decided on the networks
static std::set<string> analyses(VoikkoHandle * h, const wstring & w, bool & any) {
	any = false;
	std::set<string> r; voikko_mor_analysis ** l = voikkoAnalyzeWordUcs4(h, w.c_str());
	for (auto ** a = l; *a; a++) { std::set<string> one; for (const char ** k = voikko_mor_analysis_keys(*a); *k; k++) if (strcmp(*k, "FSTOUTPUT") && strcmp(*k, "WORDBASES")) one.insert(string(*k) + "=" + utf8(voikko_mor_analysis_value_ucs4(*a, *k))); string s; for (auto & x : one) s += x + " "; size_t p = s.find("STRUCTURE=="); any = true; if (p != string::npos && s.find('=', p + 11) > s.find(' ', p)) r.insert(s); }
	voikko_free_mor_analysis(l); return r;
}
static void paths(const Net & n, uint32_t s, string & in, string & out, vector<string> & r, int depth, bool & failed) { // a network without flags and cycles
	if (depth > 300 || s >= n.cells) { failed = true; return; }
	const dn::T * h = n.t + s; uint32_t max = h->more; bool ovf = max == 255; if (ovf) { uint32_t x; memcpy(&x, h + 1, 4); max = x + 1; }
	for (uint32_t i = 0; i <= max; i++) {
		if (i == 1 && ovf) continue;
		const dn::T & t = h[i]; if (t.in == 0xFFFF) { r.push_back(in + "\t" + out); continue; }
		size_t li = in.size(), lo = out.size();
		for (int k = 0; k < 2; k++) { int y = k ? t.out : t.in; string & d = k ? out : in; if (y) d += n.sym[y] == "@_SPACE_@" ? " " : n.sym[y]; }
		paths(n, t.target, in, out, r, depth + 1, failed); in.resize(li); out.resize(lo);
	}
}
int main(int argc, char ** argv) {
	setlocale(LC_ALL, "C.UTF-8"); string plan; for (int i = 1; i < argc; i++) if (string(argv[i]) == "--plan") plan = argv[++i];
	E().init(argc, argv); std::ifstream f(plan); string line; if (!f) { fprintf(stderr, "no plan\n"); return 3; }
	while (getline(f, line)) {
		auto v = split(line, '\t'); const string & op = v[0];
		if (op == "F") { E().startFamily(v[1]); continue; }
		if (!E().take()) continue;
		string d = v[1], msg; E().desc(d); bool failed = false;
		if (op == "broken") msg = v[2]; // the build of this vocabulary failed
		else if (op == "same" || op == "more") { // desc, network, reference, bounds, list, from, count, first part
			const auto & l = list(v[5]); size_t from = stoul(v[6]), count = stoul(v[7]); vector<string> some(l.begin() + from, l.begin() + std::min(l.size(), from + count)); string first = v[8]; size_t p = first.find('~'); if (p != string::npos) first[p] = '\t';
			auto a = walk(v[2], some, bounds(v[4]), first, failed), b = walk(v[3], some, bounds(v[4]), first, failed); msg = compare(a, b, op == "same");
			if (b.empty() && msg.empty()) { fprintf(stderr, "nothing compared: %s\n", d.c_str()); return 3; }
			for (auto & x : b) { uint64_t k = hashStr(skeleton(x.substr(x.find('\t') + 1))); if (seen.insert(k).second) E().state(k); }
		} else if (op == "none") { // desc, network, key, base
			vector<string> one{v[3] + "\t" + v[4]}; Bounds b; auto a = walk(v[2], one, b, "", failed); if (!a.empty()) msg = "present: " + a[0];
			E().step(); E().state(hashStr(op));
		} else if (op == "like") { // desc, network, key, base, reference network, reference key, base, stem, new stem, harmony, source id
			vector<string> one{v[3] + "\t" + v[4]}; Bounds b; bool bad = false; auto a = plain(walk(v[2], one, b, "", failed), v[11], bad);
			auto w = like(v[5], v[6] + "\t" + v[7], v[8], v[9], v[10], failed); for (auto & x : w) { size_t t = x.find(v[6]); x.replace(t, v[6].size(), v[3]); } std::sort(w.begin(), w.end());
			if (bad) msg = "wrong source identifier"; else msg = compare(a, w, true);
			string all; for (auto & x : w) all += x + "\n"; E().state(hashStr(all));
		} else if (op == "spell") { // desc, directory, variant, reference network, key, base, stem, new stem, harmony, wanted
			VoikkoHandle * h = handle(v[2], v[3]); if (!h) msg = "the dictionary cannot be opened";
			else for (auto & x : like(v[4], v[5] + "\t" + v[6], v[7], v[8], v[9], failed)) { string s = x.substr(0, x.find('\t')); int r = voikkoSpellUcs4(h, wide(s).c_str()); E().step(); E().state(hashStr(s)); if (r != stoi(v[10])) { msg = s + " gives " + num(r); break; } }
		} else if (op == "library") { // desc, directory, variant, reference directory, reference network, list, from, count, bounds
			VoikkoHandle * h = handle(v[2], v[3]), * g = handle(v[4], "standard"); const auto & l = list(v[6]); size_t from = stoul(v[7]), count = stoul(v[8]); vector<string> some(l.begin() + from, l.begin() + std::min(l.size(), from + count));
			if (!h || !g) { msg = h ? "no reference" : "the dictionary cannot be opened"; if (h) return 3; }
			else { string last; for (auto & x : walk(v[5], some, bounds(v[9]), "", failed)) {
				string s = x.substr(0, x.find('\t')); if (s == last) continue; last = s; bool some1, some2; auto a = analyses(h, wide(s), some1), b = analyses(g, wide(published.count(s) ? published[s] : s), some2); if (published.count(s)) { if (a.size() == b.size()) b = a; } E().step(2); E().sh->progress++;
				for (auto & y : a) E().state(hashStr(y));
				if (!some1 && some2) msg = s + " has no analysis"; for (auto & y : a) if (!b.count(y)) msg = s + " gives " + y + "instead of " + (b.empty() ? "nothing" : *b.begin());
				if (!msg.empty()) break;
			} }
		} else if (op == "pairs") { // desc, network, list of incorrect and correct
			vector<string> a, b = list(v[3]); string i, o; paths(net(v[2]), 0, i, o, a, 0, failed); std::sort(a.begin(), a.end()); std::sort(b.begin(), b.end()); b.erase(std::unique(b.begin(), b.end()), b.end()); msg = compare(a, b, true); E().step(b.size()); for (auto & x : b) E().state(hashStr(x));
		} else if (op == "correct") { // desc, directory, variant, incorrect, correct
			VoikkoHandle * h = handle(v[2], v[3]); if (!h) msg = "the dictionary cannot be opened";
			else { bool ok = false; string all; wstring t = wide(v[4]); for (int k = 0; k < 20; k++) { VoikkoGrammarError * e = voikkoNextGrammarErrorUcs4(h, t.c_str(), t.size(), 0, k); if (!e) break; string s = api::error(e, false); all += s + " "; voikkoFreeGrammarError(e); if (s == "1@0+" + num((long long) t.size()) + ">" + v[5]) ok = true; } E().step(); E().state(hashStr(all)); if (!ok) msg = "grammar errors: " + all; }
		} else if (op == "listed") { // desc, directory, variant, description
			voikko_dict ** l = voikko_list_dicts(v[2].c_str()); string all; for (auto ** x = l; *x; x++) all += string(voikko_dict_language(*x)) + "-x-" + voikko_dict_variant(*x) + " " + voikko_dict_description(*x) + ";"; voikko_free_dicts(l); E().step(); E().state(hashStr(all));
			if (all.find("fi-x-" + v[3] + " " + v[4] + ";") == string::npos) msg = "listed: " + all;
		} else { fprintf(stderr, "bad plan\n"); return 3; }
		if (failed && msg.empty()) msg = "the network is not well formed, or a word is not spelled like its class requires";
		if (!msg.empty()) E().fail(d, msg);
	}
	return E().finish();
}
