// What the process holds: blocks from operator new (not counted under AddressSanitizer, which checks them itself), mapped files, open files.
#pragma once
#include <cstdlib>
#include <dirent.h>
#include <dlfcn.h>
#include <new>
#include <sys/mman.h>
static long blocks, maps;
#ifndef __SANITIZE_ADDRESS__
void * operator new(size_t n) { void * p = malloc(n ? n : 1); if (!p) throw std::bad_alloc(); blocks++; return p; }
void * operator new[](size_t n) { return operator new(n); }
void operator delete(void * p) noexcept { if (p) { blocks--; free(p); } }
void operator delete[](void * p) noexcept { operator delete(p); }
void operator delete(void * p, size_t) noexcept { operator delete(p); }
void operator delete[](void * p, size_t) noexcept { operator delete(p); }
#endif
extern "C" {
void * mmap(void * a, size_t n, int pr, int fl, int fd, off_t o) { static auto f = (void * (*)(void *, size_t, int, int, int, off_t)) dlsym(RTLD_NEXT, "mmap"); void * r = f(a, n, pr, fl, fd, o); if (r != MAP_FAILED && fd >= 0) maps++; return r; }
int munmap(void * a, size_t n) { static auto f = (int (*)(void *, size_t)) dlsym(RTLD_NEXT, "munmap"); int r = f(a, n); if (r == 0) maps--; return r; }
}
static int files() { int n = 0; DIR * d = opendir("/proc/self/fd"); if (!d) return 0; while (readdir(d)) n++; closedir(d); return n; }
struct Held { long b, m; int f; };
static Held held() { return {blocks, maps, files()}; }

