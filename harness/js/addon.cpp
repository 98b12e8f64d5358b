// The functions of the C interface for Node: handles are numbers, byte strings are buffers or null.
#include <node_api.h>
#include <cstring>
#include <string>
#include <vector>
#include "voikko.h"
using std::string; using std::vector;
static vector<VoikkoHandle *> handles;
struct Args {
	napi_env e; napi_value v[8]; size_t n = 8;
	Args(napi_env e, napi_callback_info i) : e(e) { napi_get_cb_info(e, i, &n, v, nullptr, nullptr); }
	double num(int i) { double d = 0; napi_get_value_double(e, v[i], &d); return d; }
	int integer(int i) { int32_t d = 0; napi_get_value_int32(e, v[i], &d); return d; }
	VoikkoHandle * handle(int i) { return handles[(size_t) num(i)]; }
	bool null(int i) { napi_valuetype t; napi_typeof(e, v[i], &t); return t == napi_null || t == napi_undefined; }
	string bytes(int i) { if (null(i)) return ""; void * p; size_t l; napi_get_buffer_info(e, v[i], &p, &l); return string((char *) p, l); }
};
static napi_value number(napi_env e, double d) { napi_value r; napi_create_double(e, d, &r); return r; }
static napi_value none(napi_env e) { napi_value r; napi_get_null(e, &r); return r; }
static napi_value bytes(napi_env e, const char * s) { if (!s) return none(e); napi_value r; napi_create_buffer_copy(e, strlen(s), s, nullptr, &r); return r; }
static napi_value list(napi_env e, const vector<napi_value> & v) { napi_value r; napi_create_array(e, &r); for (size_t i = 0; i < v.size(); i++) napi_set_element(e, r, (uint32_t) i, v[i]); return r; }
static napi_value strings(napi_env e, const char * const * a) { if (!a) return none(e); vector<napi_value> v; for (; *a; a++) v.push_back(bytes(e, *a)); return list(e, v); }
#define F(N) static napi_value N(napi_env e, napi_callback_info i) { Args a(e, i);
F(init) const char * err = nullptr; string l = a.bytes(0), p = a.bytes(1); VoikkoHandle * h = voikkoInit(&err, a.null(0) ? nullptr : l.c_str(), a.null(1) ? nullptr : p.c_str()); if (!h) return bytes(e, err); handles.push_back(h); return number(e, (double) handles.size() - 1); }
F(terminate) voikkoTerminate(a.handle(0)); handles[(size_t) a.num(0)] = nullptr; return none(e); }
F(setBoolean) return number(e, voikkoSetBooleanOption(a.handle(0), a.integer(1), a.integer(2))); }
F(setInteger) return number(e, voikkoSetIntegerOption(a.handle(0), a.integer(1), a.integer(2))); }
F(spell) return number(e, voikkoSpellCstr(a.handle(0), a.bytes(1).c_str())); }
F(suggest) char ** s = voikkoSuggestCstr(a.handle(0), a.bytes(1).c_str()); napi_value r = strings(e, s); if (s) voikkoFreeCstrArray(s); return r; }
F(values) char ** s = voikkoGetAttributeValues(a.handle(0), a.bytes(1).c_str()); napi_value r = strings(e, s); if (s) voikkoFreeCstrArray(s); return r; }
F(hyphenate) char * s = voikkoHyphenateCstr(a.handle(0), a.bytes(1).c_str()); napi_value r = bytes(e, s); if (s) voikkoFreeCstr(s); return r; }
F(insert) char * s = voikkoInsertHyphensCstr(a.handle(0), a.bytes(1).c_str(), a.bytes(2).c_str(), a.integer(3)); napi_value r = bytes(e, s); if (s) voikkoFreeCstr(s); return r; }
F(token) string t = a.bytes(1); size_t n = 0; int k = voikkoNextTokenCstr(a.handle(0), t.data(), t.size(), &n); return list(e, {number(e, k), number(e, (double) n)}); }
F(sentence) string t = a.bytes(1); size_t n = 0; int k = voikkoNextSentenceStartCstr(a.handle(0), t.data(), t.size(), &n); return list(e, {number(e, k), number(e, (double) n)}); }
// code, start, length, suggestions, descriptions in the given languages
F(grammar)
	string t = a.bytes(1); VoikkoGrammarError * g = voikkoNextGrammarErrorCstr(a.handle(0), t.data(), t.size(), (size_t) a.num(2), a.integer(3));
	if (!g) return none(e);
	napi_value r = list(e, {number(e, voikkoGetGrammarErrorCode(g)), number(e, (double) voikkoGetGrammarErrorStartPos(g)), number(e, (double) voikkoGetGrammarErrorLength(g)), strings(e, voikkoGetGrammarErrorSuggestions(g)), number(e, 0)});
	napi_value ext; napi_create_external(e, g, nullptr, nullptr, &ext); napi_set_element(e, r, 4, ext);
	return r; }
F(describe) void * g; napi_get_value_external(e, a.v[0], &g); char * s = voikkoGetGrammarErrorShortDescription((VoikkoGrammarError *) g, a.bytes(1).c_str()); napi_value r = bytes(e, s); if (s) voikkoFreeErrorMessageCstr(s); return r; }
F(freeError) void * g; napi_get_value_external(e, a.v[0], &g); voikkoFreeGrammarError((VoikkoGrammarError *) g); return none(e); }
F(analyze)
	voikko_mor_analysis ** l = voikkoAnalyzeWordCstr(a.handle(0), a.bytes(1).c_str());
	if (!l) return none(e);
	vector<napi_value> all;
	for (auto x = l; *x; x++) {
		vector<napi_value> m;
		for (auto k = voikko_mor_analysis_keys(*x); *k; k++) { char * v = voikko_mor_analysis_value_cstr(*x, *k); m.push_back(list(e, {bytes(e, *k), bytes(e, v)})); voikko_free_mor_analysis_value_cstr(v); }
		all.push_back(list(e, m));
	}
	voikko_free_mor_analysis(l);
	return list(e, all); }
NAPI_MODULE_INIT() {
	napi_env e = env;
	struct { const char * n; napi_callback f; } fs[] = {{"init", init}, {"terminate", terminate}, {"setBoolean", setBoolean}, {"setInteger", setInteger}, {"spell", spell}, {"suggest", suggest}, {"values", values}, {"hyphenate", hyphenate}, {"insert", insert}, {"token", token}, {"sentence", sentence}, {"grammar", grammar}, {"describe", describe}, {"freeError", freeError}, {"analyze", analyze}};
	for (auto & f : fs) { napi_value v; napi_create_function(e, f.n, NAPI_AUTO_LENGTH, f.f, nullptr, &v); napi_set_named_property(e, exports, f.n, v); }
	return exports;
}
