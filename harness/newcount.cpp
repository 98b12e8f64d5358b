// Preloaded into a binding's process: counts the blocks the library holds.
#include <cstdlib>
#include <new>
#include <atomic>
static std::atomic<long> blocks{0}, bytes{0};
extern "C" long newcount_blocks() { return blocks; }
extern "C" long newcount_bytes() { return bytes; }
static void * get(size_t n) { size_t * p = (size_t *) malloc(n + 16); if (!p) throw std::bad_alloc(); *p = n; blocks++; bytes += n; return p + 2; }
static void put(void * p) { if (p) { size_t * q = (size_t *) p - 2; blocks--; bytes -= *q; free(q); } }
void * operator new(size_t n) { return get(n); }
void * operator new[](size_t n) { return get(n); }
void operator delete(void * p) noexcept { put(p); }
void operator delete[](void * p) noexcept { put(p); }
void operator delete(void * p, size_t) noexcept { put(p); }
void operator delete[](void * p, size_t) noexcept { put(p); }
