#ifndef COMMON_HPP
#define COMMON_HPP
#include "mc.hpp"
#include "vfst.hpp"
#include "voikko.h"
using std::string; using std::wstring; using std::vector;
struct Handle {
	VoikkoHandle * h = nullptr;
	Handle() {}
	Handle(const string & path, const string & lang = "fi") { open(path, lang); }
	void open(const string & path, const string & lang = "fi") {
		const char * err = nullptr;
		h = voikkoInit(&err, lang.c_str(), path.c_str());
		if (!h && mc::E().sh && mc::E().sh->inCase) {
			mc::E().fail(string((const char *) mc::E().sh->desc), string("a valid dictionary cannot be opened: ") + (err ? err : "?"));
			_exit(mc::E().finish());
		}
		if (!h) { fprintf(stderr, "cannot open dictionary %s %s: %s\n", path.c_str(), lang.c_str(), err ? err : "?"); exit(3); }
	}
	Handle(const Handle &) = delete; Handle & operator=(const Handle &) = delete;
	~Handle() { close(); }
	void close() { if (h) voikkoTerminate(h); h = nullptr; }
	operator VoikkoHandle * () { return h; }
};
inline string finnishDict(const string & name, const vector<string> & entries, const string & extraIndex = "") {
	string root = mc::scratch("dict-" + name);
	vf::dict(root, name, "Language: fi-x-" + name + "\nDescription: " + name + "\nGrammar-Backend: null\n" + extraIndex, {{"mor.vfst", vf::Writer::write(vf::finnishLexicon(entries), false)}});
	return root;
}
inline vector<wstring> toVec(wchar_t ** a) { vector<wstring> r; if (a) for (wchar_t ** p = a; *p; p++) r.push_back(*p); return r; }
inline vector<string> toVec(char ** a) { vector<string> r; if (a) for (char ** p = a; *p; p++) r.push_back(*p); return r; }
inline vector<string> toVec(const char ** a) { vector<string> r; if (a) for (const char ** p = a; *p; p++) r.push_back(*p); return r; }
inline string showList(const vector<wstring> & v) { string r = "["; for (auto & s : v) r += mc::show(s) + " "; return r + "]"; }
inline string showList(const vector<string> & v) { string r = "["; for (auto & s : v) r += mc::show(s) + " "; return r + "]"; }
#endif
