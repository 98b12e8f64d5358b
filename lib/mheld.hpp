// What the process holds: every heap block (malloc and new; not counted under AddressSanitizer), mapped files, open files.
#pragma once
#include <atomic>
#include <cstdlib>
#include <dirent.h>
#include <dlfcn.h>
#include <sys/mman.h>
#include <cstring>
static std::atomic<long> heapBlocks; static long heapMaps;
static int heapFill = -1; // fresh blocks are filled with this byte
#ifndef __SANITIZE_ADDRESS__
extern "C" {
void * __libc_malloc(size_t); void __libc_free(void *); void * __libc_calloc(size_t, size_t); void * __libc_realloc(void *, size_t);
void * malloc(size_t n) { void * p = __libc_malloc(n); if (p) { heapBlocks++; if (heapFill >= 0) memset(p, heapFill, n); } return p; }
void free(void * p) { if (p) heapBlocks--; __libc_free(p); }
void * calloc(size_t a, size_t b) { void * p = __libc_calloc(a, b); if (p) heapBlocks++; return p; }
void * realloc(void * p, size_t n) { void * q = __libc_realloc(p, n); if (!p && q) heapBlocks++; if (p && !n) heapBlocks--; return q; }
}
#endif
extern "C" {
void * mmap(void * a, size_t n, int pr, int fl, int fd, off_t o) { static auto f = (void * (*)(void *, size_t, int, int, int, off_t)) dlsym(RTLD_NEXT, "mmap"); void * r = f(a, n, pr, fl, fd, o); if (r != MAP_FAILED && fd >= 0) heapMaps++; return r; }
int munmap(void * a, size_t n) { static auto f = (int (*)(void *, size_t)) dlsym(RTLD_NEXT, "munmap"); int r = f(a, n); if (r == 0) heapMaps--; return r; }
}
static int openFiles() { int n = 0; DIR * d = opendir("/proc/self/fd"); if (!d) return 0; while (readdir(d)) n++; closedir(d); return n; }
struct Held { long b, m; int f; bool operator==(const Held & o) const { return b == o.b && m == o.m && f == o.f; } bool operator!=(const Held & o) const { return !(*this == o); } };
static Held held() { int f = openFiles(); return {heapBlocks.load(), heapMaps, f}; }
static inline std::string more(const Held & a, const Held & b) { return std::to_string(b.b - a.b) + " more heap blocks, " + std::to_string(b.m - a.m) + " more mappings and " + std::to_string(b.f - a.f) + " more open files than before"; }

// what the explorer itself stores meanwhile does not count
struct Quiet { long b; Quiet() : b(heapBlocks.load()) {} ~Quiet() { heapBlocks = b; } };
template<class F> static void quietly(F f) { Quiet q; f(); }
