// Allocation entry points: fault injection, and shadow reset for the race monitor.
#include "mcint.h"
#include "mcrt.h"
#include <cstdlib>
#include <new>
#include <malloc.h>
#include <errno.h>
using namespace mc;
static inline void clr(void* p) { if (tsan_on && p && shadow_clear) shadow_clear(p, malloc_usable_size(p)); }
extern "C" {
void* __real_malloc(size_t); void __real_free(void*); void* __real_calloc(size_t, size_t); void* __real_realloc(void*, size_t);
void* __real_aligned_alloc(size_t, size_t); int __real_posix_memalign(void**, size_t, size_t);
void* __wrap_malloc(size_t n) { if (alloc_fails()) { errno = ENOMEM; return nullptr; } void* p = __real_malloc(n); clr(p); return p; }
void* __wrap_calloc(size_t a, size_t b) { if (alloc_fails()) { errno = ENOMEM; return nullptr; } void* p = __real_calloc(a, b); clr(p); return p; }
void* __wrap_realloc(void* o, size_t n) { if (alloc_fails()) { errno = ENOMEM; return nullptr; } clr(o); void* p = __real_realloc(o, n); clr(p); return p; }
void* __wrap_aligned_alloc(size_t a, size_t n) { if (alloc_fails()) { errno = ENOMEM; return nullptr; } void* p = __real_aligned_alloc(a, n); clr(p); return p; }
int __wrap_posix_memalign(void** o, size_t a, size_t n) { if (alloc_fails()) return ENOMEM; int r = __real_posix_memalign(o, a, n); if (!r) clr(*o); return r; }
void __wrap_free(void* p) { clr(p); __real_free(p); }
}
static void* nw(size_t n) { if (alloc_fails()) throw std::bad_alloc(); void* p = __real_malloc(n ? n : 1); if (!p) throw std::bad_alloc(); clr(p); return p; }
static void* nwn(size_t n) { if (alloc_fails()) return nullptr; void* p = __real_malloc(n ? n : 1); clr(p); return p; }
static void* nwa(size_t n, size_t a) { if (alloc_fails()) throw std::bad_alloc(); void* p = nullptr; if (__real_posix_memalign(&p, a < sizeof(void*) ? sizeof(void*) : a, n ? n : 1)) throw std::bad_alloc(); clr(p); return p; }
static void del(void* p) { clr(p); __real_free(p); }
extern "C" { // what the runtime and the oracles themselves allocate: never a fault
void* mct_nw(size_t n) { void* p = __real_malloc(n ? n : 1); if (!p) abort(); clr(p); return p; }
void* mct_nwa(size_t n) { return mct_nw(n); }
void* mct_malloc(size_t n) { return mct_nw(n); }
void* mct_calloc(size_t a, size_t b) { void* p = __real_calloc(a, b); if (!p) abort(); clr(p); return p; }
}
void* operator new(size_t n) { return nw(n); }
void* operator new[](size_t n) { return nw(n); }
void* operator new(size_t n, const std::nothrow_t&) noexcept { return nwn(n); }
void* operator new[](size_t n, const std::nothrow_t&) noexcept { return nwn(n); }
void* operator new(size_t n, std::align_val_t a) { return nwa(n, (size_t) a); }
void* operator new[](size_t n, std::align_val_t a) { return nwa(n, (size_t) a); }
void operator delete(void* p) noexcept { del(p); }
void operator delete[](void* p) noexcept { del(p); }
void operator delete(void* p, size_t) noexcept { del(p); }
void operator delete[](void* p, size_t) noexcept { del(p); }
void operator delete(void* p, const std::nothrow_t&) noexcept { del(p); }
void operator delete[](void* p, const std::nothrow_t&) noexcept { del(p); }
void operator delete(void* p, std::align_val_t) noexcept { del(p); }
void operator delete[](void* p, std::align_val_t) noexcept { del(p); }
void operator delete(void* p, size_t, std::align_val_t) noexcept { del(p); }
void operator delete[](void* p, size_t, std::align_val_t) noexcept { del(p); }
#include <dlfcn.h>
extern "C" __attribute__((visibility("default"))) void* __cxa_allocate_exception(size_t n) noexcept { // served by the C++ runtime's own malloc
  static auto real = (void* (*)(size_t)) dlsym(RTLD_NEXT, "__cxa_allocate_exception");
  void* p = real(n); if (tsan_on && p && shadow_clear) shadow_clear(p, n); return p;
}
