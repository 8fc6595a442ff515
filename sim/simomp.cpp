// libgomp replaced by fibers of the simulator.
#include "simrt_int.hpp"
#include <cstdlib>
#include <vector>
#include <omp.h>
using namespace sim;

namespace sim {
struct WorkShare { uint64_t gen{0}; bool init{false}; bool ull{false}; long next{0}, end{0}, incr{1}, chunk{1}; unsigned long long unext{0}, uend{0}, uincr{1}, uchunk{1}; bool up{true}; int sched{1}; int nthr{1}; int sections_next{1}, sections{0}; int finished{0}; };
struct Team {
  int n{1};
  Team* parent{nullptr};
  int barrier_count{0}; uint64_t barrier_gen{0}; VC barrier_vc, barrier_done_vc;
  std::unordered_map<uint32_t, WorkShare> ws;
  std::unordered_map<uint32_t, int> single;
  void* copyprivate{nullptr};
};
static OmpCtx g_seq;                       // outside a run
static OmpCtx& ctx() { return g_active ? cur()->omp : g_seq; }
extern Fiber g_fibers[];
static int g_max_team = 0; static uint64_t g_regions = 0;
static OmpEnv g_env;
OmpEnv& omp_env() { return g_env; }
int max_team_seen() { return g_max_team; }
uint64_t regions() { return g_regions; }

static void team_barrier() {
  auto& c = ctx(); Team* t = c.team;
  if (!t || t->n <= 1) return;
  t->barrier_vc.join(cur()->vc);
  cur()->vc.c[cur()->id]++;
  if (++t->barrier_count == t->n) {
    t->barrier_count = 0; ++t->barrier_gen; t->barrier_done_vc = t->barrier_vc;
    wake(t);
    cur()->vc.join(t->barrier_done_vc);
    sched_point();
  } else {
    uint64_t g = t->barrier_gen;
    while (t->barrier_gen == g) block_on(t, "barrier");
    cur()->vc.join(t->barrier_done_vc);
  }
}

static void par(void (*fn)(void*), void* data, unsigned num, const WorkShare* pre) {
  bool on = g_on; g_on = false;
  auto& c = ctx();
  int want = num ? static_cast<int>(num) : c.icv_threads;
  if (!g_active) want = 1;
  if (c.active_level >= 1) want = 1;
  if (g_env.thread_limit > 0 && want > g_env.thread_limit) want = g_env.thread_limit;
  if (want > 32) want = 32;
  if (want < 1) want = 1;
  if (c.dyn && want > 1) {
    int less = static_cast<int>(env_draw("omp_dyn", static_cast<uint64_t>(want)));
    if (less) fault_fired("thin_team");
    want -= less;
  }
  Team* t = new Team; t->n = want; t->parent = c.team;
  if (pre) { WorkShare w = *pre; w.init = true; w.nthr = want; t->ws[0] = w; }
  OmpCtx save = c;
  if (g_active) { ++g_regions; if (want > g_max_team) g_max_team = want; count_region(want); }
  OmpCtx inner = c; inner.team = t; inner.level = save.level + 1; inner.active_level = save.active_level + (want > 1 ? 1 : 0); inner.ws = 0; inner.single = 0;
  int ids[32]; std::function<void()>* bodies[32];
  if (want > 1) {
    Fiber* me = cur();
    for (int k = 1; k < want; ++k) {
      bodies[k] = new std::function<void()>([fn, data, on]() { g_on = on; fn(data); g_on = false; });
      ids[k] = spawn(bodies[k], me);
      OmpCtx o = inner; o.tid = k;
      g_fibers[ids[k]].omp = o;
    }
    me->vc.c[me->id]++;
  }
  inner.tid = 0; ctx() = inner;
  if (want > 1) sched_point();
  g_on = on;
  fn(data);
  g_on = false;
  if (want > 1) for (int k = 1; k < want; ++k) { fiber_join(ids[k]); delete bodies[k]; }
  ctx() = save;
  delete t;
  g_on = on;
}
struct Off { bool o; Off() : o(g_on) { g_on = false; } ~Off() { g_on = o; } };
static WorkShare& ws_enter() {
  Off off;
  auto& c = ctx();
  static Team seq_team;
  if (!c.team) { seq_team = Team(); seq_team.n = 1; c.team = &seq_team; }
  return c.team->ws[c.ws];
}
static bool ws_next(long* is, long* ie) {
  auto& c = ctx(); auto& w = c.team->ws[c.ws];
  if (g_active) sched_point();
  long left = w.incr > 0 ? (w.end - w.next + w.incr - 1) / w.incr : (w.next - w.end - w.incr - 1) / -w.incr;
  if (left <= 0) return false;
  long take = w.chunk > 0 ? w.chunk : 1;
  if (w.sched == 2) { long g = (left + c.team->n - 1) / c.team->n; if (g > take) take = g; }   // guided
  if (take > left) take = left;
  *is = w.next; w.next += take * w.incr; *ie = w.next;
  if (w.incr > 0 ? *ie > w.end : *ie < w.end) *ie = w.end;
  return true;
}
static bool ws_start(long s, long e, long i, long ch, int sched, long* is, long* ie) {
  auto& w = ws_enter();
  if (!w.init) { w.init = true; w.next = s; w.end = e; w.incr = i; w.chunk = ch; w.sched = sched; w.nthr = ctx().team->n; }
  return ws_next(is, ie);
}
static bool ws_next_ull(unsigned long long* is, unsigned long long* ie) {
  auto& c = ctx(); auto& w = c.team->ws[c.ws];
  if (g_active) sched_point();
  unsigned long long left;
  if (w.up) left = w.unext >= w.uend ? 0 : (w.uend - w.unext + w.uincr - 1) / w.uincr;
  else { unsigned long long dec = -w.uincr; left = w.unext <= w.uend ? 0 : (w.unext - w.uend + dec - 1) / dec; }
  if (!left) return false;
  unsigned long long take = w.uchunk ? w.uchunk : 1;
  if (w.sched == 2) { unsigned long long g = (left + static_cast<unsigned>(c.team->n) - 1) / static_cast<unsigned>(c.team->n); if (g > take) take = g; }
  if (take > left) take = left;
  *is = w.unext; w.unext += take * w.uincr; *ie = w.unext;
  if (w.up ? *ie > w.uend : *ie < w.uend) *ie = w.uend;
  return true;
}
static bool ws_start_ull(bool up, unsigned long long s, unsigned long long e, unsigned long long i, unsigned long long ch, int sched, unsigned long long* is, unsigned long long* ie) {
  auto& w = ws_enter();
  if (!w.init) { w.init = true; w.ull = true; w.up = up; w.unext = s; w.uend = e; w.uincr = i; w.uchunk = ch; w.sched = sched; }
  return ws_next_ull(is, ie);
}
static WorkShare pre(long s, long e, long i, long ch, int sched) { WorkShare w; w.next = s; w.end = e; w.incr = i; w.chunk = ch; w.sched = sched; return w; }
}  // namespace sim

extern "C" {
void GOMP_parallel(void (*fn)(void*), void* data, unsigned n, unsigned) { par(fn, data, n, nullptr); }
unsigned GOMP_parallel_reductions(void (*fn)(void*), void* data, unsigned n, unsigned) { par(fn, data, n, nullptr); return static_cast<unsigned>(ctx().team ? ctx().team->n : 1); }
#define PAR_LOOP(name, sched) void name(void (*fn)(void*), void* data, unsigned n, long s, long e, long i, long ch, unsigned) { auto w = pre(s, e, i, ch, sched); par(fn, data, n, &w); }
PAR_LOOP(GOMP_parallel_loop_dynamic, 1)
PAR_LOOP(GOMP_parallel_loop_nonmonotonic_dynamic, 1)
PAR_LOOP(GOMP_parallel_loop_guided, 2)
PAR_LOOP(GOMP_parallel_loop_nonmonotonic_guided, 2)
PAR_LOOP(GOMP_parallel_loop_static, 1)
#define PAR_LOOP_RT(name) void name(void (*fn)(void*), void* data, unsigned n, long s, long e, long i, unsigned) { auto w = pre(s, e, i, 1, 1); par(fn, data, n, &w); }
PAR_LOOP_RT(GOMP_parallel_loop_runtime)
PAR_LOOP_RT(GOMP_parallel_loop_nonmonotonic_runtime)
PAR_LOOP_RT(GOMP_parallel_loop_maybe_nonmonotonic_runtime)
#define LOOP(kind, sched) \
  bool GOMP_loop_##kind##_start(long s, long e, long i, long ch, long* is, long* ie) { return ws_start(s, e, i, ch, sched, is, ie); } \
  bool GOMP_loop_##kind##_next(long* is, long* ie) { return ws_next(is, ie); } \
  bool GOMP_loop_ull_##kind##_start(bool up, unsigned long long s, unsigned long long e, unsigned long long i, unsigned long long ch, unsigned long long* is, unsigned long long* ie) { return ws_start_ull(up, s, e, i, ch, sched, is, ie); } \
  bool GOMP_loop_ull_##kind##_next(unsigned long long* is, unsigned long long* ie) { return ws_next_ull(is, ie); }
LOOP(dynamic, 1)
LOOP(nonmonotonic_dynamic, 1)
LOOP(guided, 2)
LOOP(nonmonotonic_guided, 2)
LOOP(static, 1)
#define LOOP_RT(kind) \
  bool GOMP_loop_##kind##_start(long s, long e, long i, long* is, long* ie) { return ws_start(s, e, i, 1, 1, is, ie); } \
  bool GOMP_loop_##kind##_next(long* is, long* ie) { return ws_next(is, ie); } \
  bool GOMP_loop_ull_##kind##_start(bool up, unsigned long long s, unsigned long long e, unsigned long long i, unsigned long long* is, unsigned long long* ie) { return ws_start_ull(up, s, e, i, 1, 1, is, ie); } \
  bool GOMP_loop_ull_##kind##_next(unsigned long long* is, unsigned long long* ie) { return ws_next_ull(is, ie); }
LOOP_RT(runtime)
LOOP_RT(nonmonotonic_runtime)
LOOP_RT(maybe_nonmonotonic_runtime)
void GOMP_loop_end_nowait() { ++ctx().ws; }
void GOMP_loop_end() { ++ctx().ws; if (g_active) team_barrier(); }
bool GOMP_loop_end_cancel() { GOMP_loop_end(); return false; }
void GOMP_barrier() { if (g_active) team_barrier(); }
bool GOMP_barrier_cancel() { GOMP_barrier(); return false; }
bool GOMP_cancellation_point(int) { return false; }
bool GOMP_cancel(int, bool) { return false; }
static char k_crit, k_atomic;
void GOMP_critical_start() { if (g_active) lock_key(&k_crit, "critical"); }
void GOMP_critical_end() { if (g_active) unlock_key(&k_crit); }
void GOMP_critical_name_start(void** p) { if (g_active) lock_key(p, "critical(name)"); }
void GOMP_critical_name_end(void** p) { if (g_active) unlock_key(p); }
void GOMP_atomic_start() { if (g_active) lock_key(&k_atomic, "atomic"); }
void GOMP_atomic_end() { if (g_active) unlock_key(&k_atomic); }
bool GOMP_single_start() {
  auto& c = ctx(); if (!c.team || c.team->n <= 1) return true;
  uint32_t k = c.single++; bool first = c.team->single[k]++ == 0; if (g_active) sched_point(); return first;
}
void* GOMP_single_copy_start() {
  auto& c = ctx(); if (!c.team || c.team->n <= 1) return nullptr;
  uint32_t k = c.single++; if (c.team->single[k]++ == 0) return nullptr;
  team_barrier(); void* p = c.team->copyprivate; team_barrier(); return p;
}
void GOMP_single_copy_end(void* p) { auto& c = ctx(); if (!c.team || c.team->n <= 1) return; c.team->copyprivate = p; team_barrier(); team_barrier(); }
unsigned GOMP_sections_next() { auto& w = ws_enter(); if (g_active) sched_point(); if (w.sections_next > w.sections) return 0; return static_cast<unsigned>(w.sections_next++); }
unsigned GOMP_sections_start(unsigned n) { auto& w = ws_enter(); if (!w.init) { w.init = true; w.sections = static_cast<int>(n); w.sections_next = 1; } return GOMP_sections_next(); }
void GOMP_sections_end() { GOMP_loop_end(); }
void GOMP_sections_end_nowait() { ++ctx().ws; }
void GOMP_parallel_sections(void (*fn)(void*), void* data, unsigned n, unsigned count, unsigned) { WorkShare w; w.sections = static_cast<int>(count); w.sections_next = 1; par(fn, data, n, &w); }
void GOMP_task(void (*fn)(void*), void* data, void (*cpy)(void*, void*), long size, long align, bool, unsigned, void**, int, void*) {
  if (cpy) { char* b = static_cast<char*>(std::malloc(static_cast<size_t>(size + align))); auto a = reinterpret_cast<uintptr_t>(b); a = (a + static_cast<uintptr_t>(align) - 1) / static_cast<uintptr_t>(align) * static_cast<uintptr_t>(align); cpy(reinterpret_cast<void*>(a), data); fn(reinterpret_cast<void*>(a)); std::free(b); }
  else fn(data);
}
void GOMP_taskwait() {}
void GOMP_taskyield() {}
void GOMP_taskgroup_start() {}
void GOMP_taskgroup_end() {}

int omp_get_thread_num() { return ctx().tid; }
int omp_get_num_threads() { return ctx().team ? ctx().team->n : 1; }
int omp_get_max_threads() { return ctx().icv_threads; }
void omp_set_num_threads(int n) { ctx().icv_threads = n > 0 ? n : 1; }
int omp_get_num_procs() { return 8; }
int omp_in_parallel() { return ctx().active_level > 0; }
void omp_set_dynamic(int d) { ctx().dyn = d != 0; }
int omp_get_dynamic() { return ctx().dyn; }
void omp_set_nested(int) {}
int omp_get_nested() { return 0; }
void omp_set_max_active_levels(int) {}
int omp_get_max_active_levels() { return 1; }
int omp_get_level() { return ctx().level; }
int omp_get_active_level() { return ctx().active_level; }
int omp_get_thread_limit() { return g_env.thread_limit > 0 ? g_env.thread_limit : 2147483647; }
int omp_get_team_size(int l) { return l == ctx().level ? omp_get_num_threads() : 1; }
int omp_get_ancestor_thread_num(int l) { return l == ctx().level ? ctx().tid : 0; }
int omp_get_cancellation() { return 0; }
double omp_get_wtime() { return static_cast<double>(env().mono_ns += env().tick_ns) * 1e-9; }
double omp_get_wtick() { return 1e-9; }
void omp_init_lock(omp_lock_t*) {}
void omp_destroy_lock(omp_lock_t*) {}
void omp_set_lock(omp_lock_t* l) { if (g_active) lock_key(l, "omp_lock"); }
void omp_unset_lock(omp_lock_t* l) { if (g_active) unlock_key(l); }
void omp_init_nest_lock(omp_nest_lock_t*) {}
void omp_destroy_nest_lock(omp_nest_lock_t*) {}
void omp_set_nest_lock(omp_nest_lock_t* l) { if (g_active && !relock_key(l)) lock_key(l, "omp_nest_lock"); }
void omp_unset_nest_lock(omp_nest_lock_t* l) { if (g_active && !reunlock_key(l)) unlock_key(l); }
int omp_test_lock(omp_lock_t* l) { return g_active ? trylock_key(l) : 1; }
}
