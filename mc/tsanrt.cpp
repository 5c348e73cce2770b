// Happens-before race monitor: implements the callbacks that -fsanitize=thread
// inserts in the compiled sources.  Threads run one at a time under mcrt, so
// the monitor needs no locking; vector clocks carry the synchronisation the
// program itself performs.
#include "mcint.h"
#include "mcrt.h"
#include <sys/mman.h>
#include <cstdio>
#include <cstdlib>
#include <string>
#include <cstring>
#include <dlfcn.h>
#include <unistd.h>
#include <set>
#include <map>
namespace mc {
bool tsan_on = false;
static uint64_t n_access = 0;
uint64_t tsan_accesses() { return n_access; }
static uintptr_t watch_lo = 1, watch_hi = 0;
void tsan_watch(const void* p, size_t n) { watch_lo = (uintptr_t) p; watch_hi = watch_lo + n; if (!n) watch_lo = 1, watch_hi = 0; }
enum { T = 8 };  // threads tracked
struct Cell { uint32_t w[T], r[T], aw[T], ar[T]; uint8_t wm[T], rm[T], awm[T], arm[T]; };  // plain and atomic accesses
static const int L2 = 22;  // bytes of address space per second level: 4 MB
static const int BL = 9;   // touched flags per 512 bytes: clearing what nobody accessed costs nothing
struct Level { Cell* cells; uint8_t* touched; };
static Level* top = nullptr;
static Cell* cell(uintptr_t a) {
  if (!top) top = (Level*) mmap(nullptr, sizeof(Level) << (47 - L2), PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  Level& p = top[(a & ((1ull << 47) - 1)) >> L2];
  if (!p.cells) {
    p.cells = (Cell*) mmap(nullptr, sizeof(Cell) << (L2 - 3), PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    p.touched = (uint8_t*) mmap(nullptr, 1 << (L2 - BL), PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    if (p.cells == MAP_FAILED || p.touched == MAP_FAILED) { fprintf(stderr, "tsanrt: out of memory\n"); _exit(70); }
  }
  uintptr_t o = a & ((1ull << L2) - 1);
  p.touched[o >> BL] = 1;
  return p.cells + (o >> 3);
}
void shadow_clear(const void* p, size_t n) {
  if (!top) return;
  uintptr_t a = (uintptr_t) p & ~7ull, e = (uintptr_t) p + n;
  while (a < e) {
    uintptr_t stop = ((a >> BL) + 1) << BL; if (stop > e) stop = e;
    Level& l = top[(a & ((1ull << 47) - 1)) >> L2];
    if (!l.cells) { a = ((a >> L2) + 1) << L2; continue; }
    uintptr_t o = a & ((1ull << L2) - 1);
    if (l.touched[o >> BL]) {
      memset((void*) (l.cells + (o >> 3)), 0, sizeof(Cell) * ((stop - a + 7) >> 3));
      if (stop - a == 1u << BL) l.touched[o >> BL] = 0;
    }
    a = stop;
  }
}
static std::string where(void* pc) {
  Dl_info i; char b[256];
  if (dladdr(pc, &i) && i.dli_sname) snprintf(b, sizeof b, "%s+0x%lx", i.dli_sname, (unsigned long) ((char*) pc - (char*) i.dli_saddr));
  else if (dladdr(pc, &i) && i.dli_fname) snprintf(b, sizeof b, "exe+0x%lx", (unsigned long) ((char*) pc - (char*) i.dli_fbase));
  else snprintf(b, sizeof b, "%p", pc);
  return b;
}
static void race(uintptr_t a, int other, bool w, bool ow, void* pc) {
  char b[128];
  snprintf(b, sizeof b, "data race: thread %d %s, thread %d %s, no ordering; at ", cur()->id, w ? "writes" : "reads", other, ow ? "wrote" : "read");
  (void) a;
  report(std::string(b) + where(pc));
}
static void access1(uintptr_t a, unsigned mask, bool w, void* pc) {
  Th* me = cur();
  if (!me || me->id >= T) return;
  if (a < me->used_lo && a - me->stk_lo < me->stk_len) me->used_lo = a;
  Cell* c = cell(a);
  int id = me->id;
  uint32_t clk = me->vc.c[id];
  if (w) {
    for (int t = 0; t < T; t++) {
      if (t == id) continue;
      uint32_t k = me->vc.c[t];
      if (c->w[t] > k && (c->wm[t] & mask)) { race(a, t, true, true, pc); c->w[t] = 0; }
      if (c->r[t] > k && (c->rm[t] & mask)) { race(a, t, true, false, pc); c->r[t] = 0; }
      if (c->aw[t] > k && (c->awm[t] & mask)) { race(a, t, true, true, pc); c->aw[t] = 0; }
      if (c->ar[t] > k && (c->arm[t] & mask)) { race(a, t, true, false, pc); c->ar[t] = 0; }
    }
    if (c->w[id] == clk) c->wm[id] |= mask; else { c->w[id] = clk; c->wm[id] = mask; }
  } else {
    if (c->r[id] == clk && (c->rm[id] & mask) == mask) return;
    for (int t = 0; t < T; t++) {
      if (t == id) continue;
      if (c->w[t] > me->vc.c[t] && (c->wm[t] & mask)) { race(a, t, false, true, pc); c->w[t] = 0; }
      if (c->aw[t] > me->vc.c[t] && (c->awm[t] & mask)) { race(a, t, false, true, pc); c->aw[t] = 0; }
    }
    if (c->r[id] == clk) c->rm[id] |= mask; else { c->r[id] = clk; c->rm[id] = mask; }
  }
}
static void atomic_access(uintptr_t a, size_t n, bool w, void* pc) {
  if (!tsan_on) return;
  Th* me = cur();
  if (!me || me->id >= T) return;
  int id = me->id; uint32_t clk = me->vc.c[id];
  while (n) {
    unsigned off = a & 7; size_t k = 8 - off; if (k > n) k = n;
    unsigned mask = ((1u << k) - 1) << off;
    Cell* c = cell(a & ~7ull);
    for (int t = 0; t < T; t++) {
      if (t == id) continue;
      uint32_t kk = me->vc.c[t];
      if (c->w[t] > kk && (c->wm[t] & mask)) { race(a, t, w, true, pc); c->w[t] = 0; }
      if (w && c->r[t] > kk && (c->rm[t] & mask)) { race(a, t, true, false, pc); c->r[t] = 0; }
    }
    uint32_t* s = w ? c->aw : c->ar; uint8_t* m = w ? c->awm : c->arm;
    if (s[id] == clk) m[id] |= mask; else { s[id] = clk; m[id] = mask; }
    a += k; n -= k;
  }
}
static inline void access(uintptr_t a, size_t n, bool w, void* pc) {
  if (!tsan_on) return;
  n_access++;
  if (a < watch_hi && a + n > watch_lo) yield_point(false);
  while (n) {
    unsigned off = a & 7; size_t k = 8 - off; if (k > n) k = n;
    access1(a & ~7ull, ((1u << k) - 1) << off, w, pc);
    a += k; n -= k;
  }
}
}
using namespace mc;
#define PC __builtin_return_address(0)
extern "C" {
void __tsan_init() {}
void __tsan_func_entry(void*) {}
void __tsan_func_exit() {}
#define RW(n) \
void __tsan_read##n(void* p) { access((uintptr_t) p, n, false, PC); } \
void __tsan_write##n(void* p) { access((uintptr_t) p, n, true, PC); } \
void __tsan_unaligned_read##n(void* p) { access((uintptr_t) p, n, false, PC); } \
void __tsan_unaligned_write##n(void* p) { access((uintptr_t) p, n, true, PC); } \
void __tsan_volatile_read##n(void* p) { access((uintptr_t) p, n, false, PC); } \
void __tsan_volatile_write##n(void* p) { access((uintptr_t) p, n, true, PC); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_read_range(void* p, size_t n) { access((uintptr_t) p, n, false, PC); }
void __tsan_write_range(void* p, size_t n) { access((uintptr_t) p, n, true, PC); }
void __tsan_vptr_update(void** p, void*) { access((uintptr_t) p, 8, true, PC); }
void __tsan_vptr_read(void** p) { access((uintptr_t) p, 8, false, PC); }
// memcpy & co. of the instrumented objects (tools/vb.py renames their references)
void* mct_memcpy(void* d, const void* s, size_t n) { access((uintptr_t) s, n, false, PC); access((uintptr_t) d, n, true, PC); return memcpy(d, s, n); }
void* mct_memmove(void* d, const void* s, size_t n) { access((uintptr_t) s, n, false, PC); access((uintptr_t) d, n, true, PC); return memmove(d, s, n); }
void* mct_memset(void* d, int c, size_t n) { access((uintptr_t) d, n, true, PC); return memset(d, c, n); }
}
// atomics: scheduling point, then the operation, then its synchronisation
static void acq(const volatile void* a, int mo) { if (mo == __ATOMIC_ACQUIRE || mo == __ATOMIC_ACQ_REL || mo == __ATOMIC_SEQ_CST || mo == __ATOMIC_CONSUME) hb_acquire((const void*) a); }
static void rel(const volatile void* a, int mo) { if (mo == __ATOMIC_RELEASE || mo == __ATOMIC_ACQ_REL || mo == __ATOMIC_SEQ_CST) hb_release((const void*) a); }
template <class V> static V a_load(const volatile V* p, int mo) { yield_point(false); atomic_access((uintptr_t) p, sizeof(V), false, PC); V v = *p; acq(p, mo); return v; }
template <class V> static void a_store(volatile V* p, V v, int mo) { yield_point(false); atomic_access((uintptr_t) p, sizeof(V), true, PC); rel(p, mo); *p = v; }
template <class V, class F> static V a_rmw(volatile V* p, int mo, F f) { yield_point(false); atomic_access((uintptr_t) p, sizeof(V), true, PC); acq(p, mo); rel(p, mo); V o = *p; *p = f(o); return o; }
template <class V> static int a_cas(volatile V* p, V* e, V d, int mo, int fmo) {
  yield_point(false);
  atomic_access((uintptr_t) p, sizeof(V), true, PC);
  V o = *p;
  if (o == *e) { acq(p, mo); rel(p, mo); *p = d; return 1; }
  acq(p, fmo); *e = o; return 0;
}
extern "C" {
#define AT(N, V) \
V __tsan_atomic##N##_load(const volatile V* p, int mo) { return a_load<V>(p, mo); } \
void __tsan_atomic##N##_store(volatile V* p, V v, int mo) { a_store<V>(p, v, mo); } \
V __tsan_atomic##N##_exchange(volatile V* p, V v, int mo) { return a_rmw<V>(p, mo, [=](V) { return v; }); } \
V __tsan_atomic##N##_fetch_add(volatile V* p, V v, int mo) { return a_rmw<V>(p, mo, [=](V o) { return (V) (o + v); }); } \
V __tsan_atomic##N##_fetch_sub(volatile V* p, V v, int mo) { return a_rmw<V>(p, mo, [=](V o) { return (V) (o - v); }); } \
V __tsan_atomic##N##_fetch_and(volatile V* p, V v, int mo) { return a_rmw<V>(p, mo, [=](V o) { return (V) (o & v); }); } \
V __tsan_atomic##N##_fetch_or(volatile V* p, V v, int mo) { return a_rmw<V>(p, mo, [=](V o) { return (V) (o | v); }); } \
V __tsan_atomic##N##_fetch_xor(volatile V* p, V v, int mo) { return a_rmw<V>(p, mo, [=](V o) { return (V) (o ^ v); }); } \
V __tsan_atomic##N##_fetch_nand(volatile V* p, V v, int mo) { return a_rmw<V>(p, mo, [=](V o) { return (V) ~(o & v); }); } \
int __tsan_atomic##N##_compare_exchange_strong(volatile V* p, V* e, V d, int mo, int fmo) { return a_cas<V>(p, e, d, mo, fmo); } \
int __tsan_atomic##N##_compare_exchange_weak(volatile V* p, V* e, V d, int mo, int fmo) { return a_cas<V>(p, e, d, mo, fmo); } \
V __tsan_atomic##N##_compare_exchange_val(volatile V* p, V e, V d, int mo, int fmo) { a_cas<V>(p, &e, d, mo, fmo); return e; }
AT(8, uint8_t) AT(16, uint16_t) AT(32, uint32_t) AT(64, uint64_t) AT(128, unsigned __int128)
void __tsan_atomic_thread_fence(int mo) { static char f; acq(&f, mo); rel(&f, mo); }
void __tsan_atomic_signal_fence(int) {}
}
