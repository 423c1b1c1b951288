// Heap monitor: every malloc/calloc/realloc/free of the library (and of the user's data) passes here.
#include "common.h"
#include <malloc.h>
#include <mutex>
#include <unordered_map>
extern "C" {
void* __real_malloc(size_t); void* __real_calloc(size_t, size_t); void* __real_realloc(void*, size_t); void __real_free(void*);
}
static bool g_track = false; static int g_fill = 0; static unsigned g_fillseed = 0; static std::mutex g_mu;
static std::unordered_map<void*, size_t>* g_live = nullptr; static long g_allocs = 0, g_bytes = 0, g_limit = 0;
static void fill(void* p, size_t n) {
#if defined(VF_MSAN) || defined(VF_ASAN) || defined(VF_TSAN)
  (void)p; (void)n;
#else
  if (!g_fill || !p) return; unsigned char* c = (unsigned char*)p;
  switch (g_fill) {
  case 1: memset(c, 0, n); break;
  case 2: memset(c, 0xFF, n); break;                                   // NaN / -1
  case 3: for (size_t i = 0; i < n; i++) { g_fillseed = g_fillseed * 1664525u + 1013904223u; c[i] = g_fillseed >> 24; } break;
  case 4: { double v = 1.2345; for (size_t i = 0; i + 8 <= n; i += 8) memcpy(c + i, &v, 8); break; }
  case 5: { int64_t v = 1; for (size_t i = 0; i + 8 <= n; i += 8) memcpy(c + i, &v, 8); break; }
  case 6: { double v = -3e300; for (size_t i = 0; i + 8 <= n; i += 8) memcpy(c + i, &v, 8); break; }
  default: memset(c, g_fill & 255, n);
  }
#endif
}
extern "C" void* __wrap_malloc(size_t n) {
  void* p = __real_malloc(n); fill(p, n);
  if (g_track && p) { std::lock_guard<std::mutex> l(g_mu); (*g_live)[p] = n; g_allocs++; g_bytes += (long)n; }
  return p;
}
extern "C" void* __wrap_calloc(size_t a, size_t b) {
  void* p = __real_calloc(a, b);
  if (g_track && p) { std::lock_guard<std::mutex> l(g_mu); (*g_live)[p] = a * b; g_allocs++; g_bytes += (long)(a * b); }
  return p;
}
extern "C" void* __wrap_realloc(void* q, size_t n) {
  if (g_track && q) { std::lock_guard<std::mutex> l(g_mu); g_live->erase(q); }
  void* p = __real_realloc(q, n);
  if (g_track && p) { std::lock_guard<std::mutex> l(g_mu); (*g_live)[p] = n; g_allocs++; }
  return p;
}
extern "C" void __wrap_free(void* p) {
  if (p && g_track) { std::lock_guard<std::mutex> l(g_mu); g_live->erase(p); }
#if !defined(VF_MSAN) && !defined(VF_ASAN) && !defined(VF_TSAN)
  if (p && g_fill) memset(p, 0xDB, malloc_usable_size(p));
#endif
  __real_free(p);
}
void vf_fill(int mode, unsigned seed) { g_fill = mode; g_fillseed = seed; }
void vf_track_begin() { if (!g_live) g_live = new std::unordered_map<void*, size_t>; g_live->clear(); g_allocs = g_bytes = 0; g_track = true; }
// stops tracking; returns the number of blocks allocated since vf_track_begin that are still live
long vf_track_end(string* what, long* allocs) {
  g_track = false; long n = (long)g_live->size(); if (allocs) *allocs = g_allocs;
  if (what) { vector<size_t> sz; for (auto& e : *g_live) sz.push_back(e.second); std::sort(sz.begin(), sz.end()); *what = fmt("%ld blocks, sizes", n); for (size_t i = 0; i < sz.size() && i < 12; i++) *what += fmt(" %zu", sz[i]); }
  g_live->clear(); return n;
}
void vf_forget(void* p) { if (g_live) { std::lock_guard<std::mutex> l(g_mu); g_live->erase(p); } }
#ifdef VF_MSAN
extern "C" void __msan_unpoison(const volatile void*, size_t); extern "C" intptr_t __msan_test_shadow(const volatile void*, size_t);
void vf_unpoison(const void* p, size_t n) { if (p && n) __msan_unpoison(p, n); }
bool vf_initialised(const void* p, size_t n) { return !p || !n || __msan_test_shadow(p, n) < 0; }
#else
void vf_unpoison(const void*, size_t) {}
bool vf_initialised(const void*, size_t) { return true; }
#endif
// rand() of the library: every thread can be given a sequence of its own
thread_local unsigned t_rand = 0; extern "C" int __real_rand(void);
extern "C" int __wrap_rand(void) { if (!t_rand) return __real_rand(); t_rand = t_rand * 1664525u + 1013904223u; if (!t_rand) t_rand = 1; return (int)(t_rand >> 1); }

// clock_gettime() of the library: a clock of our own that jumps ahead at every reading, often across the end of a second
#include <time.h>
thread_local FakeClock t_clock; extern "C" int __real_clock_gettime(clockid_t, struct timespec*);
extern "C" int __wrap_clock_gettime(clockid_t id, struct timespec* t) {
  if (!t_clock.on) return __real_clock_gettime(id, t);
  t_clock.x = t_clock.x * 6364136223846793005ull + 1442695040888963407ull; uint64_t u = t_clock.x >> 33; long step = u % 4 == 0 ? (long)(u % 1000) : u % 4 == 1 ? (long)(u % 1000000) : (long)(u % 2100000000ull);
  t_clock.ns += step; if (!t_clock.n++) t_clock.first = t_clock.ns; t_clock.last = t_clock.ns; t->tv_sec = t_clock.ns / 1000000000; t->tv_nsec = t_clock.ns % 1000000000; return 0;
}
