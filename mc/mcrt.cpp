#include "mcrt.h"
#include "mcint.h"
#include <pthread.h>
#include <semaphore.h>
#include <dlfcn.h>
#include <unistd.h>
#include <errno.h>
#include <string.h>
#include <stdio.h>
#include <stdlib.h>
#include <sched.h>
#include <time.h>
#include <sys/syscall.h>
#include <linux/futex.h>
#include <atomic>
#include <chrono>
#include <map>
#include <set>
#include <memory>
#include <new>
#include <unordered_map>
#include <unordered_set>
#include <algorithm>

namespace mc {

// ------------------------------------------------------------------ raw
static void real_sem_wait(std::atomic<int>* f) {
  while (true) {
    int v = f->load(std::memory_order_acquire);
    if (v > 0) { f->store(0, std::memory_order_release); return; }
    syscall(SYS_futex, f, FUTEX_WAIT_PRIVATE, 0, nullptr, nullptr, 0);
  }
}
static void real_sem_post(std::atomic<int>* f) {
  f->store(1, std::memory_order_release);
  syscall(SYS_futex, f, FUTEX_WAKE_PRIVATE, 1, nullptr, nullptr, 0);
}

typedef int (*create_t)(pthread_t*, const pthread_attr_t*, void*(*)(void*), void*);
static create_t real_create() {
  static create_t f = (create_t) dlsym(RTLD_NEXT, "pthread_create");
  return f;
}

// ------------------------------------------------------------------ explorer
static std::vector<int> g_prefix;
static std::vector<Node> g_trace;
static bool g_exploring = false;
static Base g_base = CONTINUE;
static std::string g_reports;
static int g_nreports = 0;
static bool g_nondet = false;
static std::vector<uint16_t> g_expect; // n of the forced prefix
void (*fatal_hook)(const std::string&) = nullptr;

void set_base(Base b) { g_base = b; }
bool exploring() { return g_exploring; }
void report(const std::string& w) {
  if (g_nreports++ < 5) { if (!g_reports.empty()) g_reports += "; "; g_reports += w; }
}
std::string take_reports() { std::string r; r.swap(g_reports); g_nreports = 0; return r; }

int choose(int n, Kind k) {
  if (n <= 1 || !g_exploring) return 0;
  size_t pos = g_trace.size();
  int c = 0;
  if (pos < g_prefix.size()) {
    c = g_prefix[pos];
    if (c >= n) { g_nondet = true; c = 0; }
    if (pos < g_expect.size() && g_expect[pos] != n) g_nondet = true;
  }
  Node nd; nd.n = (uint16_t) n; nd.chosen = (uint16_t) c; nd.kind = k;
  g_trace.push_back(nd);
  return c;
}

std::string current_choices() {
  std::string s;
  size_t last = g_trace.size();
  while (last > 0 && g_trace[last-1].chosen == 0) last--;
  for (size_t i = 0; i < last; i++) { if (i) s += ','; s += std::to_string(g_trace[i].chosen); }
  return s;
}

static void reset_exec();
static void recycle();

static double wall() {
  timespec ts; syscall(SYS_clock_gettime, CLOCK_MONOTONIC, &ts);
  return ts.tv_sec + ts.tv_nsec * 1e-9;
}

std::string run_with(const std::string& choices, const std::function<std::string()>& exec) {
  g_prefix.clear(); g_expect.clear();
  const char* p = choices.c_str();
  while (*p) { g_prefix.push_back((int) strtol(p, (char**) &p, 10)); if (*p == ',') p++; }
  g_trace.clear(); g_nondet = false;
  take_reports();
  reset_exec();
  g_exploring = true;
  std::string r = exec();
  g_exploring = false;
  std::string rep = take_reports();
  if (!rep.empty()) r += (r.empty() ? "" : "; ") + rep;
  return r;
}

Result explore(const Bounds& b, const std::function<std::string()>& exec,
               const std::function<bool(const std::string&, const std::string&)>& on_fail)
{
  Result R;
  g_prefix.clear(); g_expect.clear();
  double t0 = wall();
  while (true) {
    g_trace.clear(); g_nondet = false;
    take_reports();
    reset_exec();
    g_exploring = true;
    std::string r = exec();
    g_exploring = false;
    std::string rep = take_reports();
    if (!rep.empty()) r += (r.empty() ? "" : "; ") + rep;
    R.executions++;
    size_t shared = g_prefix.empty() ? 0 : g_prefix.size() - 1;
    if (g_trace.size() >= shared) {
      R.states += g_trace.size() - shared + (R.executions == 1);
      R.transitions += g_trace.size() - shared + (g_trace.empty() ? 1 : 0);
    }
    R.max_depth = std::max(R.max_depth, g_trace.size());
    for (auto& n : g_trace) if (n.kind == K_SCHED && n.n > 1) { R.multi_thread_exec++; break; }
    if (!r.empty()) {
      std::string ch = current_choices();
      if (!on_fail(r, ch)) { R.exhaustive = false; return R; }
    }
    if (g_nondet) { // execution is not a function of its choices: the tree cannot be walked further from here
      R.exhaustive = false;
    }
    if (R.executions >= b.max_exec || wall() - t0 > b.max_wall) { R.exhaustive = false; return R; }
    // backtrack
    size_t lim = std::min(g_trace.size(), b.horizon);
    if (lim < g_trace.size()) R.exhaustive = R.exhaustive; // horizon is part of the stated bounds
    std::vector<int> ds(lim + 1, 0), dc(lim + 1, 0);
    for (size_t i = 0; i < lim; i++) {
      ds[i+1] = ds[i] + (g_trace[i].kind == K_SCHED && g_trace[i].chosen);
      dc[i+1] = dc[i] + (g_trace[i].kind != K_SCHED && g_trace[i].chosen);
    }
    long i = (long) lim - 1;
    for (; i >= 0; i--) {
      if (g_trace[i].chosen + 1 >= g_trace[i].n) continue;
      int s = ds[i], c = dc[i];
      if (g_trace[i].kind == K_SCHED) s++; else c++;
      if (s <= b.max_dev_sched && c <= b.max_dev_clock) break;
    }
    if (i < 0) return R;
    g_prefix.clear(); g_expect.clear();
    for (long j = 0; j < i; j++) { g_prefix.push_back(g_trace[j].chosen); g_expect.push_back(g_trace[j].n); }
    g_prefix.push_back(g_trace[i].chosen + 1); g_expect.push_back(g_trace[i].n);
  }
}

// ------------------------------------------------------------------ threads
std::vector<Th*> g_th;        // all controlled threads, slot = id
Th* g_main = nullptr;
static int g_last_run_streak = 0;
static Th* g_last_run = nullptr;
static __thread Th* tl_self = nullptr;
static int g_live = 1;        // threads that are not DONE
static std::vector<Th*> g_pool;
static uint64_t g_yields = 0;

Th* cur() { return tl_self; }
int self() { return tl_self ? tl_self->id : -1; }

static uint32_t g_slot_clock[MAXT];
void retired_clock(Th* t) { g_slot_clock[t->id] = t->vc.c[t->id]; }
static Th* new_slot() {
  for (size_t i = 1; i < g_th.size(); i++)
    if (g_th[i] == nullptr) { Th* t = new Th(); t->id = (int) i; t->vc.c[i] = g_slot_clock[i] + 1; g_th[i] = t; return t; }
  if (g_th.size() >= MAXT) { fprintf(stderr, "mcrt: too many threads\n"); _exit(70); }
  Th* t = new Th(); t->id = (int) g_th.size(); g_th.push_back(t); return t;
}

static void init_main() {
  if (!g_main) { g_main = new Th(); g_main->id = 0; g_th.assign(1, g_main); tl_self = g_main; g_main->vc[0] = 1; }
}
struct InitMain { InitMain() { init_main(); } };
static InitMain g_init_main;

static bool enabled(Th* t) {
  if (t->state == READY) return true;
  if (t->state == BLOCKED) return t->pred(t);
  return false;
}

static void switch_to(Th* t) {
  Th* me = tl_self;
  if (t == me) return;
  real_sem_post(&t->sem);
  real_sem_wait(&me->sem);
}

static void fatal(const std::string& w) {
  if (fatal_hook) fatal_hook(w);
  fprintf(stderr, "mcrt fatal: %s choices=%s\n", w.c_str(), current_choices().c_str());
  _exit(71);
}

// choose the next thread to run; me may or may not be able to continue
static Th* pick(Th* me, bool me_ok, bool must_switch) {
  Th* cand[MAXT]; int n = 0;
  int sz = (int) g_th.size();
  if (g_live <= 1 && me_ok) return me;
  bool streak = false;
  if (me_ok) {
    if (g_last_run == me) { if (++g_last_run_streak > 20000) { streak = true; } }
    else { g_last_run = me; g_last_run_streak = 0; }
  }
  bool self_first = me_ok && !must_switch && !streak && g_base == CONTINUE;
  if (self_first) cand[n++] = me;
  if (g_base == REVERSE) {
    for (int k = sz - 1; k >= 0; k--) { Th* t = g_th[k]; if (t && t != me && t->state != DONE && enabled(t)) cand[n++] = t; }
  } else {
    for (int k = 1; k < sz; k++) { Th* t = g_th[(me->id + k) % sz]; if (t && t->state != DONE && enabled(t)) cand[n++] = t; }
  }
  if (me_ok && !self_first) cand[n++] = me;
  if (n == 0) return nullptr;
  if (streak) g_last_run_streak = 0;
  int c = choose(n, K_SCHED);
  return cand[c];
}

void yield_point(bool must_switch) {
  Th* me = tl_self;
  if (!me || g_live <= 1) return;
  g_yields++;
  Th* t = pick(me, true, must_switch);
  if (t != me) switch_to(t);
}
void yield_here() { yield_point(false); }

void block_until(bool (*pred)(Th*), void* a, long v) {
  Th* me = tl_self;
  me->pred = pred; me->parg = a; me->pval = v;
  if (pred(me)) return;
  me->state = BLOCKED;
  while (true) {
    Th* t = pick(me, false, false);
    if (!t) {
      if (pred(me)) break;
      fatal("deadlock: no thread can run");
    }
    if (t == me) break;
    switch_to(t);
    if (pred(me)) break;
  }
  me->state = READY;
}

static void thread_finished(Th* me) {
  me->state = DONE; g_live--;
  Th* t = pick(me, false, false);
  if (!t) fatal("deadlock: no thread can run after a thread ended");
  real_sem_post(&t->sem);
}

// ------------------------------------------------------------------ vector clocks
static std::unordered_map<const void*, VC>& syncs() { static auto* m = new std::unordered_map<const void*, VC>(); return *m; }
void hb_acquire(const void* a) {
  if (!tsan_on) return;
  auto& m = syncs(); auto it = m.find(a);
  if (it != m.end()) tl_self->vc.join(it->second);
}
void hb_release(const void* a) {
  if (!tsan_on) return;
  syncs()[a].join(tl_self->vc);
  tl_self->vc.c[tl_self->id]++;
}
static void hb_fork(Th* child) {
  if (!tsan_on) return;
  uint32_t own = child->vc.c[child->id];
  child->vc.join(tl_self->vc);
  child->vc.c[child->id] = std::max(own, child->vc.c[child->id]) + 1;
  tl_self->vc.c[tl_self->id]++;
}
static void hb_join(Th* child) {
  if (!tsan_on) return;
  tl_self->vc.join(child->vc);
  tl_self->vc.c[tl_self->id]++;
}

// ------------------------------------------------------------------ OpenMP teams
struct WS { bool init = false; long next = 0, end = 0, incr = 1, chunk = 1; unsigned long long unext=0, uend=0, uincr=1, uchunk=1; bool up = true; int kind = 0; int single_taken = 0; void* copypriv = nullptr; int sections_next = 1, sections_n = 0; };
struct Team {
  int n = 1; Team* parent = nullptr; int parent_tid = 0;
  std::vector<WS*> ws; int barrier_count = 0; long barrier_gen = 0;
  bool combined = false; int remaining = 0; VC barrier_vc;
  ~Team() { for (auto w : ws) delete w; }
  WS* get(size_t i) { while (ws.size() <= i) ws.push_back(new WS()); return ws[i]; }
};
struct OmpCtx { Team* team = nullptr; int tid = 0; size_t ws = 0; long stat_iter = 0; };
static __thread OmpCtx tl_omp;
static int g_max_threads = 8;
static uint64_t g_regions = 0, g_members = 0;
void set_max_threads(int n) { g_max_threads = n; }
uint64_t regions_multi() { return g_regions; }
uint64_t team_members() { return g_members; }

struct PoolJob { void (*fn)(void*); void* data; Team* team; int tid; bool combined; };

static void* pool_main(void* a) {
  Th* me = (Th*) a;
  tl_self = me;
  while (true) {
    real_sem_wait(&me->sem);
    PoolJob* j = (PoolJob*) me->job;
    tl_omp.team = j->team; tl_omp.tid = j->tid; tl_omp.ws = 0;
    j->fn(j->data);
    tl_omp.team = nullptr;
    j->team->remaining--;
    delete j; me->job = nullptr;
    me->in_pool_idle = true;
    thread_finished(me);
  }
  return nullptr;
}

static Th* pool_get() {
  for (Th* t : g_pool) if (t->in_pool_idle) { t->in_pool_idle = false; return t; }
  Th* t = new_slot();
  t->state = DONE;
  pthread_t p; pthread_attr_t at; pthread_attr_init(&at); pthread_attr_setstacksize(&at, 2 << 20);
  if (real_create()(&p, &at, pool_main, t)) { fprintf(stderr, "mcrt: pthread_create failed\n"); _exit(70); }
  pthread_attr_destroy(&at);
  g_pool.push_back(t);
  return t;
}

static bool pred_team_done(Th* t) { return ((Team*) t->parg)->remaining == 0; }

static void run_team(void (*fn)(void*), void* data, unsigned nthreads, bool combined, long start, long end, long incr, long chunk, int sections = 0)
{
  init_main();
  OmpCtx saved = tl_omp;
  int n = nthreads ? (int) nthreads : g_max_threads;
  if (saved.team) n = 1;                  // nested parallelism is off by default
  if (n > MAXT - 1) n = MAXT - 1;
  Team team; team.n = n; team.parent = saved.team; team.combined = combined; team.parent_tid = saved.tid;
  if (combined) { WS* w = team.get(0); w->init = true; w->next = start; w->end = end; w->incr = incr; w->chunk = chunk; w->sections_n = sections; }
  tl_omp.team = &team; tl_omp.tid = 0; tl_omp.ws = 0;
  if (n == 1) { fn(data); tl_omp = saved; return; }
  g_regions++; g_members += n;
  team.remaining = n - 1;
  std::vector<Th*> members;
  for (int i = 1; i < n; i++) {
    Th* t = pool_get();
    t->job = new PoolJob{fn, data, &team, i, combined};
    hb_fork(t);
    members.push_back(t);
  }
  for (Th* t : members) { t->state = READY; g_live++; }
  yield_point(false);
  fn(data);
  yield_point(false);
  block_until(pred_team_done, &team, 0);
  for (Th* t : members) hb_join(t);
  tl_omp = saved;
}

} // namespace mc
using namespace mc;

static WS* cur_ws() { return tl_omp.team->get(tl_omp.ws); }
static Team* ensure_team() {
  if (!tl_omp.team) { tl_omp.team = new Team(); tl_omp.tid = 0; tl_omp.ws = 0; }
  return tl_omp.team;
}
static bool next_dyn(long* s, long* e) {
  yield_point(false);
  WS* w = cur_ws();
  long left;
  if (w->incr > 0) { if (w->next >= w->end) return false; left = (w->end - w->next + w->incr - 1) / w->incr; }
  else { if (w->next <= w->end) return false; left = (w->next - w->end - w->incr - 1) / -w->incr; }
  long c = w->chunk < 1 ? 1 : w->chunk;
  if (w->kind == 1) { long g = left / (2 * tl_omp.team->n); if (g > c) c = g; }
  if (c > left) c = left;
  *s = w->next; *e = w->next + c * w->incr;
  w->next = *e;
  return true;
}
static bool start_dyn(long s, long e, long incr, long chunk, int kind, long* is, long* ie) {
  ensure_team();
  WS* w = cur_ws();
  if (!w->init) { w->init = true; w->next = s; w->end = e; w->incr = incr; w->chunk = chunk; w->kind = kind; }
  return next_dyn(is, ie);
}
static bool next_udyn(unsigned long long* s, unsigned long long* e) {
  yield_point(false);
  WS* w = cur_ws();
  typedef unsigned long long U;
  U left;
  if (w->up) { if (w->unext >= w->uend) return false; left = (w->uend - w->unext + w->uincr - 1) / w->uincr; }
  else { U d = 0 - w->uincr; if (w->unext <= w->uend) return false; left = (w->unext - w->uend + d - 1) / d; }
  U c = w->uchunk < 1 ? 1 : w->uchunk;
  if (w->kind == 1) { U g = left / (2 * tl_omp.team->n); if (g > c) c = g; }
  if (c > left) c = left;
  *s = w->unext; *e = w->unext + c * w->uincr; w->unext = *e;
  return true;
}
static bool start_udyn(bool up, unsigned long long s, unsigned long long e, unsigned long long incr, unsigned long long chunk, int kind, unsigned long long* is, unsigned long long* ie) {
  ensure_team();
  WS* w = cur_ws();
  if (!w->init) { w->init = true; w->unext = s; w->uend = e; w->uincr = incr; w->uchunk = chunk; w->up = up; w->kind = kind; }
  return next_udyn(is, ie);
}
static bool pred_barrier(Th* t) { return ((Team*) t->parg)->barrier_gen > t->pval; }
static void do_barrier() {
  Team* tm = tl_omp.team;
  if (!tm || tm->n == 1) return;
  yield_point(false);
  long gen = tm->barrier_gen;
  hb_release((char*) tm + (gen & 1));
  if (++tm->barrier_count == tm->n) { tm->barrier_count = 0; tm->barrier_gen++; }
  else block_until(pred_barrier, tm, gen);
  hb_acquire((char*) tm + (gen & 1));
}
struct MLock { int owner = -1; int depth = 0; };
static std::unordered_map<const void*, MLock>& locks() { static auto* m = new std::unordered_map<const void*, MLock>(); return *m; }
static bool pred_lock(Th* t) { return locks()[t->parg].owner == -1; }
static void lock_acquire(const void* a) {
  yield_point(false);
  block_until(pred_lock, (void*) a, 0);
  locks()[a].owner = tl_self->id;
  hb_acquire(a);
}
static bool lock_try(const void* a) {
  yield_point(false);
  MLock& l = locks()[a];
  if (l.owner != -1) return false;
  l.owner = tl_self->id; hb_acquire(a);
  return true;
}
static void lock_release(const void* a) {
  hb_release(a);
  locks()[a].owner = -1;
  yield_point(false);
}

extern "C" {
#define EXP __attribute__((visibility("default")))
EXP void GOMP_parallel(void (*fn)(void*), void* data, unsigned n, unsigned) { run_team(fn, data, n, false, 0, 0, 1, 1); }
#define PLOOP(name, KIND) \
EXP void name(void (*fn)(void*), void* data, unsigned n, long s, long e, long incr, long chunk, unsigned) { run_team(fn, data, n, true, s, e, incr, chunk); }
PLOOP(GOMP_parallel_loop_dynamic, 0)
PLOOP(GOMP_parallel_loop_nonmonotonic_dynamic, 0)
PLOOP(GOMP_parallel_loop_guided, 1)
PLOOP(GOMP_parallel_loop_nonmonotonic_guided, 1)
EXP void GOMP_parallel_loop_static(void (*fn)(void*), void* data, unsigned n, long s, long e, long incr, long chunk, unsigned) { run_team(fn, data, n, true, s, e, incr, chunk); }
#define PLOOPR(name) \
EXP void name(void (*fn)(void*), void* data, unsigned n, long s, long e, long incr, unsigned) { run_team(fn, data, n, true, s, e, incr, 1); }
PLOOPR(GOMP_parallel_loop_runtime)
PLOOPR(GOMP_parallel_loop_nonmonotonic_runtime)
PLOOPR(GOMP_parallel_loop_maybe_nonmonotonic_runtime)
#define LOOPX(stem, KIND) \
EXP bool GOMP_loop_##stem##_start(long s, long e, long incr, long chunk, long* is, long* ie) { return start_dyn(s, e, incr, chunk, KIND, is, ie); } \
EXP bool GOMP_loop_##stem##_next(long* is, long* ie) { return next_dyn(is, ie); }
LOOPX(dynamic, 0)
LOOPX(nonmonotonic_dynamic, 0)
LOOPX(guided, 1)
LOOPX(nonmonotonic_guided, 1)
LOOPX(static, 0)
#define LOOPR(stem) \
EXP bool GOMP_loop_##stem##_start(long s, long e, long incr, long* is, long* ie) { return start_dyn(s, e, incr, 1, 0, is, ie); } \
EXP bool GOMP_loop_##stem##_next(long* is, long* ie) { return next_dyn(is, ie); }
LOOPR(runtime)
LOOPR(nonmonotonic_runtime)
LOOPR(maybe_nonmonotonic_runtime)
#define ULOOPX(stem, KIND) \
EXP bool GOMP_loop_ull_##stem##_start(bool up, unsigned long long s, unsigned long long e, unsigned long long incr, unsigned long long chunk, unsigned long long* is, unsigned long long* ie) { return start_udyn(up, s, e, incr, chunk, KIND, is, ie); } \
EXP bool GOMP_loop_ull_##stem##_next(unsigned long long* is, unsigned long long* ie) { return next_udyn(is, ie); }
ULOOPX(dynamic, 0)
ULOOPX(nonmonotonic_dynamic, 0)
ULOOPX(guided, 1)
ULOOPX(nonmonotonic_guided, 1)
ULOOPX(static, 0)
#define ULOOPR(stem) \
EXP bool GOMP_loop_ull_##stem##_start(bool up, unsigned long long s, unsigned long long e, unsigned long long incr, unsigned long long* is, unsigned long long* ie) { return start_udyn(up, s, e, incr, 1, 0, is, ie); } \
EXP bool GOMP_loop_ull_##stem##_next(unsigned long long* is, unsigned long long* ie) { return next_udyn(is, ie); }
ULOOPR(runtime)
ULOOPR(nonmonotonic_runtime)
ULOOPR(maybe_nonmonotonic_runtime)
EXP void GOMP_loop_end_nowait() { ensure_team(); tl_omp.ws++; }
EXP void GOMP_loop_end() { ensure_team(); tl_omp.ws++; do_barrier(); }
EXP bool GOMP_loop_end_cancel() { GOMP_loop_end(); return false; }
EXP void GOMP_barrier() { do_barrier(); }
EXP bool GOMP_barrier_cancel() { do_barrier(); return false; }
EXP bool GOMP_cancel(int, bool) { return false; }
EXP bool GOMP_cancellation_point(int) { return false; }
EXP bool GOMP_single_start() { Team* t = ensure_team(); yield_point(false); WS* w = t->get(tl_omp.ws++); if (w->single_taken) return false; w->single_taken = 1; return true; }
EXP void* GOMP_single_copy_start() { Team* t = ensure_team(); yield_point(false); WS* w = t->get(tl_omp.ws++); if (w->single_taken) { do_barrier(); void* p = w->copypriv; do_barrier(); return p; } w->single_taken = 1; return nullptr; }
EXP void GOMP_single_copy_end(void* d) { tl_omp.team->get(tl_omp.ws - 1)->copypriv = d; do_barrier(); do_barrier(); }
EXP unsigned GOMP_sections_start(unsigned n) { Team* t = ensure_team(); yield_point(false); WS* w = t->get(tl_omp.ws); if (!w->init) { w->init = true; w->sections_n = (int) n; } return w->sections_next <= w->sections_n ? w->sections_next++ : 0; }
EXP unsigned GOMP_sections_next() { yield_point(false); WS* w = cur_ws(); return w->sections_next <= w->sections_n ? w->sections_next++ : 0; }
EXP void GOMP_parallel_sections(void (*fn)(void*), void* data, unsigned n, unsigned cnt, unsigned) {
  run_team(fn, data, n, true, 0, 0, 1, 1, (int) cnt);
}
EXP void GOMP_sections_end() { tl_omp.ws++; do_barrier(); }
EXP void GOMP_sections_end_nowait() { tl_omp.ws++; }
static char atomic_lock_tag;
static char critical_lock_tag;
EXP void GOMP_atomic_start() { lock_acquire(&atomic_lock_tag); }
EXP void GOMP_atomic_end() { lock_release(&atomic_lock_tag); }
EXP void GOMP_critical_start() { lock_acquire(&critical_lock_tag); }
EXP void GOMP_critical_end() { lock_release(&critical_lock_tag); }
EXP void GOMP_critical_name_start(void** p) { lock_acquire(p); }
EXP void GOMP_critical_name_end(void** p) { lock_release(p); }
EXP void GOMP_ordered_start() {}
EXP void GOMP_ordered_end() {}
EXP void GOMP_task(void (*fn)(void*), void* data, void (*cpyfn)(void*, void*), long arg_size, long arg_align, bool, unsigned, void**, int, void*) {
  yield_point(false);
  if (cpyfn) { std::vector<char> buf(arg_size + arg_align); char* p = (char*) (((uintptr_t) buf.data() + arg_align - 1) & ~(uintptr_t) (arg_align - 1)); cpyfn(p, data); fn(p); }
  else fn(data);
}
EXP void GOMP_taskwait() {}
EXP void GOMP_taskgroup_start() {}
EXP void GOMP_taskgroup_end() {}

EXP int omp_get_num_threads() { return tl_omp.team ? tl_omp.team->n : 1; }
EXP int omp_get_thread_num() { return tl_omp.team ? tl_omp.tid : 0; }
EXP int omp_get_max_threads() { return g_max_threads; }
EXP int omp_get_num_procs() { return g_max_threads; }
EXP int omp_get_thread_limit() { return 1 << 30; }
EXP void omp_set_num_threads(int n) { if (n > 0) g_max_threads = n; }
EXP int omp_in_parallel() { for (Team* t = tl_omp.team; t; t = t->parent) if (t->n > 1) return 1; return 0; }
EXP int omp_get_level() { int l = 0; for (Team* t = tl_omp.team; t; t = t->parent) l++; return l; }
EXP void omp_set_dynamic(int) {}
EXP int omp_get_dynamic() { return 0; }
EXP void omp_set_nested(int) {}
EXP int omp_get_nested() { return 0; }
EXP double omp_get_wtime() { return std::chrono::duration<double>(std::chrono::steady_clock::now().time_since_epoch()).count(); }
EXP double omp_get_wtick() { return 1e-9; }
EXP void omp_init_lock(void* l) { locks()[l] = MLock(); }
EXP void omp_destroy_lock(void* l) { locks().erase(l); }
EXP void omp_set_lock(void* l) { lock_acquire(l); }
EXP void omp_unset_lock(void* l) { if (locks()[l].owner != tl_self->id) mc::report("lock released by a thread that does not hold it"); lock_release(l); }
EXP int omp_test_lock(void* l) { return lock_try(l); }
EXP void omp_init_nest_lock(void* l) { locks()[l] = MLock(); }
EXP void omp_destroy_nest_lock(void* l) { locks().erase(l); }
EXP void omp_set_nest_lock(void* l) { if (locks()[l].owner != tl_self->id) lock_acquire(l); locks()[l].depth++; }
EXP void omp_unset_nest_lock(void* l) { if (--locks()[l].depth == 0) lock_release(l); }
EXP int omp_test_nest_lock(void* l) { if (locks()[l].owner != tl_self->id && !lock_try(l)) return 0; return ++locks()[l].depth; }
}

// ------------------------------------------------------------------ clock
namespace mc {
static int64_t g_now_us = 1000000;
static std::vector<int64_t> g_alpha{1};
static std::function<int64_t()>* g_script = nullptr;
static uint64_t g_clock_calls = 0;
void set_clock_alphabet(const std::vector<int64_t>& us) { g_alpha = us; if (g_script) { delete g_script; g_script = nullptr; } }
void set_clock_script(const std::function<int64_t()>& f) { if (g_script) delete g_script; g_script = new std::function<int64_t()>(f); }
void reset_clock() { g_now_us = 1000000; g_clock_calls = 0; }
uint64_t clock_calls() { return g_clock_calls; }
static int64_t tick_us() {
  g_clock_calls++;
  if (g_script) g_now_us += (*g_script)();
  else g_now_us += g_alpha[choose((int) g_alpha.size(), K_CLOCK)];
  return g_now_us;
}
}
namespace std { namespace chrono { inline namespace _V2 {
steady_clock::time_point steady_clock::now() noexcept { return time_point(duration_cast<duration>(microseconds(mc::tick_us()))); }
system_clock::time_point system_clock::now() noexcept { return time_point(duration_cast<duration>(microseconds(mc::tick_us()))); }
}}}

// ------------------------------------------------------------------ pthreads / std::thread / std::future
namespace mc {
struct Start { void* (*fn)(void*); void* arg; Th* th; };
static std::map<pthread_t, Th*>& handles() { static auto* m = new std::map<pthread_t, Th*>(); return *m; }
static void* thread_tramp(void* a) {
  Start* s = (Start*) a;
  Th* me = s->th; tl_self = me;
  real_sem_wait(&me->sem);
  if (tsan_on) { // the system hands stacks (and thread-local storage) of ended threads to new ones
    pthread_attr_t at; void* lo; size_t len;
    if (!pthread_getattr_np(pthread_self(), &at)) { if (!pthread_attr_getstack(&at, &lo, &len)) { me->stk_lo = (uintptr_t) lo; me->stk_len = len; me->used_lo = me->stk_lo + len - 8192; } pthread_attr_destroy(&at); }
  }
  void* r = s->fn(s->arg);
  delete s;
  if (me->stk_len && shadow_clear) shadow_clear((void*) me->used_lo, me->stk_lo + me->stk_len - me->used_lo);
  me->stk_len = 0;
  me->ret = r;
  thread_finished(me);
  return r;
}
static bool pred_done(Th* t) { return ((Th*) t->parg)->state == DONE; }
}
static bool controlled() { return tl_self != nullptr; }

extern "C" {
EXP int pthread_create(pthread_t* p, const pthread_attr_t* at, void* (*fn)(void*), void* arg) {
  if (!controlled()) return real_create()(p, at, fn, arg);
  if (alloc_fails()) return EAGAIN;         // the system cannot start a thread
  recycle();
  Th* t = new_slot();
  Start* s = new Start{fn, arg, t};
  hb_fork(t);
  int rc = real_create()(p, at, thread_tramp, s);
  if (rc) { g_th[t->id] = nullptr; return rc; }
  t->state = READY; g_live++;
  t->handle = *p;
  handles()[*p] = t;
  yield_point(false);
  return 0;
}
EXP int pthread_join(pthread_t p, void** ret) {
  static auto real = (int (*)(pthread_t, void**)) dlsym(RTLD_NEXT, "pthread_join");
  auto it = handles().find(p);
  if (!controlled() || it == handles().end()) return real(p, ret);
  Th* t = it->second;
  yield_point(false);
  block_until(pred_done, t, 0);
  hb_join(t);
  handles().erase(it);
  int rc = real(p, ret);
  // the slot id stays with its clock; reuse keeps it monotone
  t->reusable = true;
  return rc;
}
EXP int pthread_detach(pthread_t p) {
  static auto real = (int (*)(pthread_t)) dlsym(RTLD_NEXT, "pthread_detach");
  auto it = handles().find(p);
  if (controlled() && it != handles().end()) { it->second->detached = true; handles().erase(it); }
  return real(p);
}
EXP int pthread_mutex_lock(pthread_mutex_t* m) {
  static auto real = (int (*)(pthread_mutex_t*)) dlsym(RTLD_NEXT, "pthread_mutex_lock");
  if (!controlled()) return real ? real(m) : 0;
  if (locks()[m].owner == tl_self->id) { locks()[m].depth++; return 0; }
  lock_acquire(m);
  return 0;
}
EXP int pthread_mutex_trylock(pthread_mutex_t* m) {
  static auto real = (int (*)(pthread_mutex_t*)) dlsym(RTLD_NEXT, "pthread_mutex_trylock");
  if (!controlled()) return real ? real(m) : 0;
  return lock_try(m) ? 0 : EBUSY;
}
EXP int pthread_mutex_unlock(pthread_mutex_t* m) {
  static auto real = (int (*)(pthread_mutex_t*)) dlsym(RTLD_NEXT, "pthread_mutex_unlock");
  auto it = locks().find(m);
  if (!controlled() || it == locks().end() || it->second.owner != tl_self->id) return real ? real(m) : 0;
  if (it->second.depth > 0) { it->second.depth--; return 0; }
  lock_release(m);
  return 0;
}
EXP int pthread_once(pthread_once_t* o, void (*fn)()) {
  static auto real = (int (*)(pthread_once_t*, void (*)())) dlsym(RTLD_NEXT, "pthread_once");
  if (!controlled() || g_live <= 1) return real(o, fn);
  yield_point(false);
  block_until([](Th* t) { return (*(volatile int*) t->parg & 1) == 0; }, o, 0);
  if (*(volatile int*) o == 2) { hb_acquire(o); return 0; }
  *(volatile int*) o = 1;
  try { fn(); } catch (...) { *(volatile int*) o = 0; throw; }
  hb_release(o);
  *(volatile int*) o = 2;
  return 0;
}
struct CondState { long gen = 0; long signals = 0; };
static std::unordered_map<const void*, long>& cond_tickets() { static auto* m = new std::unordered_map<const void*, long>(); return *m; }
static std::unordered_map<const void*, std::vector<Th*>>& cond_q() { static auto* m = new std::unordered_map<const void*, std::vector<Th*>>(); return *m; }
EXP int pthread_cond_wait(pthread_cond_t* c, pthread_mutex_t* m) {
  static auto real = (int (*)(pthread_cond_t*, pthread_mutex_t*)) dlsym(RTLD_NEXT, "pthread_cond_wait");
  if (!controlled()) return real(c, m);
  cond_q()[c].push_back(tl_self); tl_self->cond_woken = false;
  pthread_mutex_unlock(m);
  block_until([](Th* t) { return t->cond_woken; }, c, 0);
  hb_acquire(c);
  pthread_mutex_lock(m);
  return 0;
}
EXP int pthread_cond_timedwait(pthread_cond_t* c, pthread_mutex_t* m, const struct timespec*) {
  if (!controlled()) return ETIMEDOUT;
  pthread_mutex_unlock(m); yield_point(true); pthread_mutex_lock(m); (void) c; return ETIMEDOUT;
}
EXP int pthread_cond_clockwait(pthread_cond_t* c, pthread_mutex_t* m, clockid_t, const struct timespec* ts) { return pthread_cond_timedwait(c, m, ts); }
EXP int pthread_cond_signal(pthread_cond_t* c) {
  static auto real = (int (*)(pthread_cond_t*)) dlsym(RTLD_NEXT, "pthread_cond_signal");
  if (!controlled()) return real(c);
  hb_release(c);
  auto& q = cond_q()[c]; if (!q.empty()) { q.front()->cond_woken = true; q.erase(q.begin()); }
  yield_point(false); return 0;
}
EXP int pthread_cond_broadcast(pthread_cond_t* c) {
  static auto real = (int (*)(pthread_cond_t*)) dlsym(RTLD_NEXT, "pthread_cond_broadcast");
  if (!controlled()) return real(c);
  hb_release(c);
  for (Th* t : cond_q()[c]) t->cond_woken = true;
  cond_q()[c].clear(); yield_point(false); return 0;
}
EXP int sched_yield() {
  if (controlled()) { yield_point(true); return 0; }
  return (int) syscall(SYS_sched_yield);
}
EXP int nanosleep(const struct timespec* a, struct timespec* b) {
  if (controlled() && g_live > 1) { yield_point(true); return 0; }
  return (int) syscall(SYS_nanosleep, a, b);
}
EXP int clock_nanosleep(clockid_t, int, const struct timespec*, struct timespec*) { if (controlled()) yield_point(true); return 0; }
EXP int usleep(useconds_t) { if (controlled()) yield_point(true); return 0; }

// function-local statics
EXP int __cxa_guard_acquire(long long* g) {
  volatile char* b = (volatile char*) g;
  if (b[0]) { hb_acquire(g); return 0; }
  if (controlled() && b[1]) block_until([](Th* t) { return ((volatile char*) t->parg)[1] == 0; }, g, 0);
  if (b[0]) { hb_acquire(g); return 0; }
  b[1] = 1;
  return 1;
}
EXP void __cxa_guard_release(long long* g) { volatile char* b = (volatile char*) g; if (controlled()) hb_release(g); b[1] = 0; b[0] = 1; }
EXP void __cxa_guard_abort(long long* g) { ((volatile char*) g)[1] = 0; }
}

// the number of processors is the environment's choice, too
#include <thread>
unsigned int std::thread::hardware_concurrency() noexcept { return (unsigned) mc::g_max_threads; }

// futures: std::__atomic_futex_unsigned_base
#include <bits/atomic_futex.h>
namespace std {
bool __atomic_futex_unsigned_base::_M_futex_wait_until(unsigned* addr, unsigned val, bool has_timeout, chrono::seconds, chrono::nanoseconds) {
  if (!controlled()) { sched_yield(); return true; }
  if (has_timeout) { yield_point(true); return *(volatile unsigned*) addr != val; }
  block_until([](Th* t) { return *(volatile unsigned*) t->parg != (unsigned) t->pval; }, addr, (long) val);
  return true;
}
bool __atomic_futex_unsigned_base::_M_futex_wait_until_steady(unsigned* addr, unsigned val, bool has_timeout, chrono::seconds s, chrono::nanoseconds n) {
  return _M_futex_wait_until(addr, val, has_timeout, s, n);
}
void __atomic_futex_unsigned_base::_M_futex_notify_all(unsigned*) { if (controlled()) yield_point(false); }
}

// ------------------------------------------------------------------ allocation faults
namespace mc {
static int g_fault_mode = 0; static uint64_t g_fault_at = 0, g_fault_n = 0, g_fault_hits = 0;
void fault_arm(int mode, uint64_t at) { g_fault_mode = mode; g_fault_at = at; g_fault_n = 0; g_fault_hits = 0; }
void fault_pause() { g_fault_mode = 0; }
uint64_t fault_count() { return g_fault_n; }
uint64_t fault_hits() { return g_fault_hits; }
bool alloc_fails() {
  if (!g_fault_mode) return false;
  uint64_t i = g_fault_n++;
  if (g_fault_mode == 3) return false;      // counting only
  bool f = g_fault_mode == 1 ? i == g_fault_at : i >= g_fault_at;
  g_fault_hits += f;
  return f;
}
static void reset_exec() {
  reset_clock();
  g_last_run = nullptr; g_last_run_streak = 0;
  recycle();
}
static void recycle() {   // the slots of joined / detached threads
  if (g_live != 1) return;
  for (size_t i = 1; i < g_th.size(); i++)
    if (g_th[i] && g_th[i]->state == DONE && (g_th[i]->reusable || g_th[i]->detached)) { Th* t = g_th[i]; g_th[i] = nullptr; retired_clock(t); delete t; }
}
}
