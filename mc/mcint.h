#pragma once
#include <atomic>
#include <cstdint>
#include <cstring>
#include <pthread.h>
namespace mc {
enum { MAXT = 16 };
struct VC {
  uint32_t c[MAXT]; VC() { memset(c, 0, sizeof(c)); }
  void join(const VC& o) { for (int i = 0; i < MAXT; i++) if (o.c[i] > c[i]) c[i] = o.c[i]; }
  uint32_t& operator[](int i) { return c[i]; }
};
enum St { READY, BLOCKED, DONE };
struct Th {
  int id = 0; std::atomic<int> sem{0}; St state = READY;
  bool (*pred)(Th*) = nullptr; void* parg = nullptr; long pval = 0;
  VC vc; void* job = nullptr; bool in_pool_idle = false;
  pthread_t handle{}; void* ret = nullptr; bool reusable = false, detached = false, cond_woken = false;
  uintptr_t stk_lo = 1, stk_len = 0, used_lo = 0; // this thread's stack and how much of it the monitor has seen
};
Th* cur();
void yield_point(bool must_switch);
void block_until(bool (*pred)(Th*), void* a, long v);
void hb_acquire(const void*);
void hb_release(const void*);
bool alloc_fails();
void retired_clock(Th*);
void shadow_clear(const void*, size_t) __attribute__((weak));
extern bool tsan_on;
}
