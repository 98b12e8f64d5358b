// Stands between a binding and the library: counts the threads inside calls for one handle and can stop the k-th entry.
#include <condition_variable>
#include <cstddef>
#include <dlfcn.h>
#include <map>
#include <mutex>
#include <thread>
static std::mutex m; static std::condition_variable cv;
static std::map<void *, std::map<std::thread::id, int>> inside; static int entries, stopAt, entered, overlap; static bool released = true;
extern "C" {
int gate_arm(int k) { std::unique_lock<std::mutex> l(m); stopAt = k ? entries + k : 0; entered = overlap = 0; released = k == 0; return 0; }
int gate_entered() { std::unique_lock<std::mutex> l(m); return entered; }
int gate_overlap() { std::unique_lock<std::mutex> l(m); return overlap; }
int gate_entries() { std::unique_lock<std::mutex> l(m); return entries; }
int gate_release() { std::unique_lock<std::mutex> l(m); released = true; stopAt = 0; cv.notify_all(); return 0; }
}
struct In {
	void * h;
	In(void * h) : h(h) { std::unique_lock<std::mutex> l(m); entries++; auto & at = inside[h]; at[std::this_thread::get_id()]++; if (at.size() > 1) overlap = 1; if (stopAt && entries == stopAt) { entered = 1; cv.notify_all(); while (!released) cv.wait(l); } }
	~In() { std::unique_lock<std::mutex> l(m); auto & at = inside[h]; auto me = std::this_thread::get_id(); if (!--at[me]) at.erase(me); }
};
template<class F> static F real(const char * n) { return (F) dlsym(RTLD_NEXT, n); }
#define GATE(R, N, P, A) extern "C" R N P { static auto f = real<R (*) P>(#N); In in(h); return f A; }
GATE(void, voikkoTerminate, (void * h), (h))
GATE(int, voikkoSetBooleanOption, (void * h, int o, int v), (h, o, v))
GATE(int, voikkoSetIntegerOption, (void * h, int o, int v), (h, o, v))
GATE(int, voikkoSpellCstr, (void * h, const char * w), (h, w))
GATE(int, voikkoSpellUcs4, (void * h, const wchar_t * w), (h, w))
GATE(void *, voikkoSuggestCstr, (void * h, const char * w), (h, w))
GATE(void *, voikkoSuggestUcs4, (void * h, const wchar_t * w), (h, w))
GATE(void *, voikkoHyphenateCstr, (void * h, const char * w), (h, w))
GATE(void *, voikkoHyphenateUcs4, (void * h, const wchar_t * w), (h, w))
GATE(void *, voikkoInsertHyphensCstr, (void * h, const char * w, const char * s, int c), (h, w, s, c))
GATE(void *, voikkoAnalyzeWordCstr, (void * h, const char * w), (h, w))
GATE(void *, voikkoAnalyzeWordUcs4, (void * h, const wchar_t * w), (h, w))
GATE(void *, voikkoGetAttributeValues, (void * h, const char * w), (h, w))
GATE(int, voikkoNextTokenCstr, (void * h, const char * t, size_t n, size_t * k), (h, t, n, k))
GATE(int, voikkoNextTokenUcs4, (void * h, const wchar_t * t, size_t n, size_t * k), (h, t, n, k))
GATE(int, voikkoNextSentenceStartCstr, (void * h, const char * t, size_t n, size_t * k), (h, t, n, k))
GATE(int, voikkoNextSentenceStartUcs4, (void * h, const wchar_t * t, size_t n, size_t * k), (h, t, n, k))
GATE(void *, voikkoNextGrammarErrorCstr, (void * h, const char * t, size_t n, size_t s, int k), (h, t, n, s, k))
GATE(void *, voikkoNextGrammarErrorUcs4, (void * h, const wchar_t * t, size_t n, size_t s, int k), (h, t, n, s, k))
