// Replaces the global allocation functions of a harness: a cap on single
// requests (damaged sizes must not exhaust the machine), accounting of live
// blocks, and failure of the k-th allocation.
#pragma once
#include <atomic>
#include <cstdlib>
#include <malloc.h>
#include <stddef.h>
#include <new>

#ifndef VT_ALLOC_CAP
#define VT_ALLOC_CAP (1ull << 40)
#endif

namespace vt {
struct AllocState {
#ifdef VT_TRACK_BYTES
  long long bytes = 0, peak = 0; // held now and at most since the last reset (single thread)
#endif
  std::atomic<long long> live{0};       // blocks allocated and not freed
  std::atomic<unsigned long long> count{0}; // requests while armed
  std::atomic<unsigned long long> refused{0};
  std::atomic<unsigned long long> biggest{0};
  unsigned long long cap = VT_ALLOC_CAP;
  bool armed = false;
  unsigned long long fail_at = ~0ull; // this request fails while armed (0-based)
  bool fail_rest = false;             // and all after it
  unsigned long long failed = 0;
};
inline AllocState g_alloc; // constant-initialised: usable before any constructor has run

#ifdef VT_TRACK_BYTES
#define VT_TRACK(p) vt::track(static_cast<long long>(malloc_usable_size(p)))
#define VT_UNTRACK(p) vt::track(-static_cast<long long>(malloc_usable_size(p)))
inline void track(long long n) {
  g_alloc.bytes += n;
  if (g_alloc.bytes > g_alloc.peak) g_alloc.peak = g_alloc.bytes;
}
#else
#define VT_TRACK(p) (void)0
#define VT_UNTRACK(p) (void)0
#endif

// true if this request is to fail
inline bool alloc_should_fail(size_t n) {
  AllocState &a = g_alloc;
  if (a.armed) {
    unsigned long long k = a.count++;
    if (n > a.biggest) a.biggest = n;
    if (k == a.fail_at || (a.fail_rest && k > a.fail_at)) { ++a.failed; return true; }
  }
  if (n > a.cap) { ++a.refused; return true; }
  return false;
}
} // namespace vt

extern "C" void *__real_malloc(size_t);
extern "C" void *__real_calloc(size_t, size_t);
extern "C" void *__real_realloc(void *, size_t);
extern "C" void __real_free(void *);
#ifdef VT_WRAP_MALLOC // also what the C parts of the library allocate; link with LINK_WRAP
#define VT_MALLOC __real_malloc
#define VT_FREE __real_free
extern "C" void *__wrap_malloc(size_t n) {
  if (vt::alloc_should_fail(n)) return nullptr;
  void *p = __real_malloc(n);
  if (p) { ++vt::g_alloc.live; VT_TRACK(p); }
  return p;
}
extern "C" void *__wrap_calloc(size_t a, size_t b) {
  if (vt::alloc_should_fail(a * b)) return nullptr;
  void *p = __real_calloc(a, b);
  if (p) { ++vt::g_alloc.live; VT_TRACK(p); }
  return p;
}
extern "C" void *__wrap_realloc(void *q, size_t n) {
  if (vt::alloc_should_fail(n)) return nullptr;
  if (q) VT_UNTRACK(q);
  void *p = __real_realloc(q, n);
  if (p && !q) ++vt::g_alloc.live;
  if (p) VT_TRACK(p);
  else if (q) VT_TRACK(q);
  return p;
}
extern "C" void __wrap_free(void *p) {
  if (p) { --vt::g_alloc.live; VT_UNTRACK(p); }
  __real_free(p);
}
#else
#define VT_MALLOC malloc
#define VT_FREE free
#endif

static void *vt_new(size_t n) {
  if (vt::alloc_should_fail(n)) return nullptr;
  void *p = VT_MALLOC(n ? n : 1);
  if (p) { ++vt::g_alloc.live; VT_TRACK(p); }
  return p;
}
static void vt_delete(void *p) {
  if (p) { --vt::g_alloc.live; VT_UNTRACK(p); VT_FREE(p); }
}
void *operator new(size_t n) { void *p = vt_new(n); if (!p) throw std::bad_alloc(); return p; }
void *operator new[](size_t n) { void *p = vt_new(n); if (!p) throw std::bad_alloc(); return p; }
void *operator new(size_t n, const std::nothrow_t &) noexcept { return vt_new(n); }
void *operator new[](size_t n, const std::nothrow_t &) noexcept { return vt_new(n); }
void operator delete(void *p) noexcept { vt_delete(p); }
void operator delete[](void *p) noexcept { vt_delete(p); }
void operator delete(void *p, size_t) noexcept { vt_delete(p); }
void operator delete[](void *p, size_t) noexcept { vt_delete(p); }
void operator delete(void *p, const std::nothrow_t &) noexcept { vt_delete(p); }
void operator delete[](void *p, const std::nothrow_t &) noexcept { vt_delete(p); }
