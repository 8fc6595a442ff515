#include "simrt_int.hpp"
#include "simdisk.hpp"
#include <algorithm>
#include <atomic>
#include <cerrno>
#include <cmath>
#include <csignal>
#include <cstdarg>
#include <cstdio>
#include <cstdlib>
#include <cxxabi.h>
#include <execinfo.h>
#include <fcntl.h>
#include <iomanip>
#include <iostream>
#include <locale>
#include <new>
#include <poll.h>
#include <pthread.h>
#include <sstream>
#include <streambuf>
#include <sys/ioctl.h>
#include <sys/mman.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <time.h>
#include <typeinfo>
#include <unistd.h>

extern "C" char __libc_single_threaded;
extern "C" char __data_start, _end, __executable_start, etext;

namespace sim {
// ================================================================ memory map
constexpr uintptr_t HEAP_BASE = 0x100000000000ull, HEAP_SIZE = 768ull << 20;
constexpr uintptr_t STK_BASE = 0x110000000000ull, STK_SIZE = 1ull << 30;
constexpr uintptr_t RSH_HEAP = 0x200000000000ull;   // race shadow of the heap: 64 bytes per 8 byte granule
constexpr uintptr_t RSH_STK = 0x210000000000ull;
constexpr uintptr_t RSH_GLB = 0x220000000000ull;
constexpr uintptr_t ASH = 0x230000000000ull;        // addressability of the heap: 1 byte per 8
constexpr uintptr_t META = 0x240000000000ull;       // block descriptors: 16 bytes per 16 byte granule
constexpr size_t MAIN_STACK = 32u << 20, FIBER_STACK = 4u << 20;

struct Cell { uint32_t epoch; uint8_t tid, flags, mask, pad; uint32_t pc; uint32_t session; };   // flags: 1 write, 2 atomic
static_assert(sizeof(Cell) == 16);
struct Meta { uint32_t size; uint32_t seq; uint32_t pc; uint32_t state; };                           // state 1 live, 2 freed
static uintptr_t g_glb_lo, g_glb_hi, g_cout_lo[6], g_cout_hi[6]; static int g_ncout = 0;

static void* fixed_map(uintptr_t at, size_t n) {
  void* p = mmap(reinterpret_cast<void*>(at), n, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0);
  if (p != reinterpret_cast<void*>(at)) { const char m[] = "sim: can not map\n"; (void)!write(2, m, sizeof m - 1); _exit(77); }
  return p;
}

// ================================================================ state
bool g_active = false, g_on = false;
static bool g_multi = false, g_races = true;
static uint64_t g_steps = 0, g_next = ~0ull, g_cap = 400000000ull, g_switches = 0, g_preempts = 0;
Fiber g_fibers[MAXF];
static Fiber* g_cur = nullptr;
static int g_nalive = 0; static uint64_t g_spawned = 0;
static uint32_t g_session = 1;
static Rng g_rng_choice, g_rng_sched;
static uint64_t g_hash = 1469598103934665603ull;
static SchedCfg g_sched;
static const char* g_phase = "";
static Env g_env;
static bool g_oom_armed = false; static uint64_t g_oom_at = 0, g_oom_rep = 1, g_oom_n = 0, g_oom_fired = 0, g_oom_fired_total = 0;
static uint8_t g_fill = 0;
static bool g_parent_malloc = false;   // the parent process, between runs, must not change the heap its children inherit
static uint64_t g_regions_multi = 0;
static std::vector<uint64_t> g_pct;       // change points
static uint64_t g_order = 0;

struct Choice { const char* tag; uint64_t n, v; };
// run recording lives outside the simulated heap
template<class T> struct RawVec {
  T* d{nullptr}; size_t n{0}, cap{0};
  void push(const T& x) { if (n == cap) { size_t c = cap ? cap * 2 : 1024; d = static_cast<T*>(std::realloc(static_cast<void*>(d), c * sizeof(T))); cap = c; } d[n++] = x; }
};
static RawVec<Choice> g_choices;
struct SchedEv { uint64_t step; uint16_t to; uint16_t pre; };
static RawVec<SchedEv> g_trace;
static bool g_replay = false, g_replay_sched = false;
static const std::vector<uint64_t>* g_in_choices = nullptr; static size_t g_in_pos = 0;
static const std::vector<std::pair<uint64_t, int>>* g_in_sched = nullptr; static size_t g_in_sched_pos = 0;
static bool g_want_trace = false;

struct Count { const char* name; uint64_t n; };
static RawVec<Count> g_probes, g_faults;
static RawVec<char*> g_notes;
static RawVec<uint64_t> g_states;
static bool g_nontrivial = false;
static int g_out_fd = -1;

Env& env() { return g_env; }
Fiber* cur() { return g_cur; }
bool multi() { return g_multi; }
int fiber_id() { return g_cur ? g_cur->id : 0; }
uint64_t steps() { return g_steps; }
uint64_t switches() { return g_switches; }
void count_region(int n) { if (n > 1) ++g_regions_multi; }

void mix_hash(const void* p, size_t n) { auto c = static_cast<const uint8_t*>(p); for (size_t i = 0; i < n; ++i) { g_hash ^= c[i]; g_hash *= 1099511628211ull; } }
void mix_hash(uint64_t v) { g_hash ^= v + 0x9e3779b97f4a7c15ull + (g_hash << 6) + (g_hash >> 2); g_hash *= 1099511628211ull; }
static void bump(RawVec<Count>& v, const char* name, uint64_t n) { for (size_t i = 0; i < v.n; ++i) if (!std::strcmp(v.d[i].name, name)) { v.d[i].n += n; return; } v.push({strdup(name), n}); }
void probe(const char* name, uint64_t n) { bump(g_probes, name, n); }
void fault_fired(const char* name, uint64_t n) { bump(g_faults, name, n); }
void note(const std::string& s) { if (g_notes.n < 400) g_notes.push(strdup(s.c_str())); }
void state_seen(uint64_t h) { if (g_states.n < 4096) g_states.push(h); }
void nontrivial(bool b) { g_nontrivial = g_nontrivial || b; }

// ================================================================ choices
uint64_t draw(const char* tag, uint64_t n) {
  uint64_t v;
  if (g_replay) { v = g_in_choices && g_in_pos < g_in_choices->size() ? (*g_in_choices)[g_in_pos] : 0; ++g_in_pos; if (n) v %= n; else v = 0; }
  else v = g_rng_choice.below(n);
  g_choices.push({tag, n, v}); mix_hash(v);
  return v;
}
bool coin(const char* tag, double p) {
  uint64_t v;
  if (g_replay) { v = g_in_choices && g_in_pos < g_in_choices->size() ? (*g_in_choices)[g_in_pos] : 0; ++g_in_pos; v = v != 0; }
  else v = g_rng_choice.uni() < p;
  g_choices.push({tag, 2, v}); mix_hash(v);
  return v != 0;
}
uint64_t draw_seed(const char* tag) { return draw(tag, 1ull << 32); }
uint64_t env_draw(const char* tag, uint64_t n) { return draw(tag, n); }

// ================================================================ result and exit
static void esc(std::string& o, const char* s) { for (; *s; ++s) { if (*s == '\n') o += "\\n"; else if (*s == '\\') o += "\\\\"; else o += *s; } }
static void write_all(int fd, const char* p, size_t n) { while (n) { ssize_t k = write(fd, p, n); if (k <= 0) { if (k < 0 && errno == EINTR) continue; return; } p += k; n -= static_cast<size_t>(k); } }
static void (*g_setup_failed)(const char* kind, const char* detail){nullptr};   // set while the fixtures are built
[[noreturn]] static void finish(bool viol, const char* kind, const char* detail) {
  if (g_setup_failed && viol) { g_setup_failed(kind, detail); _exit(82); }
  g_on = false; g_multi = false; g_oom_armed = false;
  mix_hash(g_steps); mix_hash(g_switches);
  if (kind) mix_hash(kind, std::strlen(kind));
  std::string o; o.reserve(1 << 16);
  char b[256];
  std::snprintf(b, sizeof b, "R %d %016llx %llu %llu %llu %llu %d %d\n", viol ? 1 : 0, (unsigned long long)g_hash, (unsigned long long)g_steps, (unsigned long long)g_switches, (unsigned long long)g_preempts, (unsigned long long)g_regions_multi, max_team_seen(), g_nontrivial ? 1 : 0); o += b;
  std::snprintf(b, sizeof b, "T %lld\n", (long long)(g_env.now_ns)); o += b;
  for (size_t i = 0; i < g_probes.n; ++i) { o += "P "; o += g_probes.d[i].name; std::snprintf(b, sizeof b, " %llu\n", (unsigned long long)g_probes.d[i].n); o += b; }
  for (size_t i = 0; i < g_faults.n; ++i) { o += "F "; o += g_faults.d[i].name; std::snprintf(b, sizeof b, " %llu\n", (unsigned long long)g_faults.d[i].n); o += b; }
  for (size_t i = 0; i < g_states.n; ++i) { std::snprintf(b, sizeof b, "S %016llx\n", (unsigned long long)g_states.d[i]); o += b; }
  if (viol) { o += "K "; esc(o, kind); o += "\nD "; esc(o, detail); o += "\n"; }
  if (viol || g_want_trace) {
    for (size_t i = 0; i < g_choices.n; ++i) { std::snprintf(b, sizeof b, "C %s %llu %llu\n", g_choices.d[i].tag, (unsigned long long)g_choices.d[i].n, (unsigned long long)g_choices.d[i].v); o += b; }
    for (size_t i = 0; i < g_trace.n; ++i) { std::snprintf(b, sizeof b, "X %llu %d\n", (unsigned long long)g_trace.d[i].step, g_trace.d[i].to); o += b; }
    for (size_t i = 0; i < g_notes.n; ++i) { o += "N "; esc(o, g_notes.d[i]); o += "\n"; }
  }
  o += "E\n";
  write_all(g_out_fd, o.data(), o.size());
  _exit(0);
}
static std::string where_now() {
  void* bt[40]; int n = backtrace(bt, 40); std::ostringstream o; o << " pcs=";
  for (int i = 1; i < n; ++i) { auto a = reinterpret_cast<uintptr_t>(bt[i]); if (a >= reinterpret_cast<uintptr_t>(&__executable_start) && a < reinterpret_cast<uintptr_t>(&etext)) o << "[0x" << std::hex << a - 1 << "]"; }
  return o.str();
}
void violation(const std::string& kind, const std::string& detail) {
  g_on = false; g_multi = false; g_oom_armed = false;
  std::ostringstream o; o << detail << " | phase=" << g_phase << " fiber=" << fiber_id() << " step=" << g_steps;
  finish(true, kind.c_str(), o.str().c_str());
}
Phase::Phase(const char* n) : old(g_phase) { g_phase = n; }
Phase::~Phase() { g_phase = old; }
Quiet::Quiet() : old(g_on) { g_on = false; }
Quiet::~Quiet() { g_on = old; }
Loud::Loud() : old(g_on) { if (g_active) g_on = true; }
Loud::~Loud() { g_on = old; }

// ================================================================ heap
static uintptr_t g_brk = HEAP_BASE; static bool g_heap_ready = false;
static uint32_t g_seq = 0; static uint64_t g_live = 0, g_live_bytes = 0;
constexpr int NCLS = 200;
struct FreeList { uint32_t* d; size_t n, cap; };
static FreeList g_free[NCLS];
constexpr size_t QN = 2048; static uint32_t g_quar[QN]; static size_t g_qh = 0, g_qn = 0; static size_t g_qbytes = 0;
static inline Meta* meta(uintptr_t a) { return reinterpret_cast<Meta*>(META + ((a - HEAP_BASE) >> 4) * sizeof(Meta)); }
static inline uint8_t* ash(uintptr_t a) { return reinterpret_cast<uint8_t*>(ASH + ((a - HEAP_BASE) >> 3)); }
static inline Cell* rsh(uintptr_t a) {
  if (a - HEAP_BASE < HEAP_SIZE) return reinterpret_cast<Cell*>(RSH_HEAP + ((a - HEAP_BASE) >> 3) * 64);
  if (a - STK_BASE < STK_SIZE) return reinterpret_cast<Cell*>(RSH_STK + ((a - STK_BASE) >> 3) * 64);
  if (a >= g_glb_lo && a < g_glb_hi) { for (int i = 0; i < g_ncout; ++i) if (a >= g_cout_lo[i] && a < g_cout_hi[i]) return nullptr; return reinterpret_cast<Cell*>(RSH_GLB + ((a - g_glb_lo) >> 3) * 64); }
  return nullptr;
}
static void heap_init() {
  g_heap_ready = true;
  fixed_map(HEAP_BASE, HEAP_SIZE); fixed_map(STK_BASE, STK_SIZE);
  fixed_map(RSH_HEAP, HEAP_SIZE * 8); fixed_map(RSH_STK, STK_SIZE * 8);
  fixed_map(ASH, HEAP_SIZE / 8); fixed_map(META, HEAP_SIZE / 16 * sizeof(Meta));
  g_glb_lo = reinterpret_cast<uintptr_t>(&__data_start) & ~7ull; g_glb_hi = (reinterpret_cast<uintptr_t>(&_end) + 7) & ~7ull;
  fixed_map(RSH_GLB, ((g_glb_hi - g_glb_lo) * 8 + 4095) & ~4095ull);
}
static int cls_of(size_t n, size_t& full) {   // n in bytes including redzone; full = rounded size
  if (n <= 1024) { int c = static_cast<int>((n + 15) / 16); full = static_cast<size_t>(c) * 16; return c; }      // 1..64
  int c = 65; size_t s = 1024;
  while (true) { for (int k = 1; k <= 4; ++k, ++c) { size_t t = s + s / 4 * static_cast<size_t>(k); if (n <= t) { full = t; return c; } } s *= 2; }
}
static void* h_alloc(size_t size, size_t align, uint32_t pc) {
  if (!g_heap_ready) heap_init();
  if (align < 16) align = 16;
  size_t full; size_t need = size + 16 + (align > 16 ? align : 0);
  if (need < size || need > HEAP_SIZE / 2) return nullptr;
  int c = cls_of(need, full);
  uintptr_t a = 0; FreeList& f = g_free[c];
  if (f.n && align == 16) a = HEAP_BASE + static_cast<uintptr_t>(f.d[--f.n]) * 16;
  else { if (align > 16) g_brk = (g_brk + align - 1) / align * align; a = g_brk; if (a + full > HEAP_BASE + HEAP_SIZE) return nullptr; g_brk += full; }
  Meta* m = meta(a); m->size = static_cast<uint32_t>(size); m->seq = ++g_seq; m->pc = pc; m->state = 1;
  uint8_t* s = ash(a); size_t g8 = size / 8; std::memset(s, 8, g8); if (size & 7) s[g8++] = static_cast<uint8_t>(size & 7); std::memset(s + g8, 0xFE, full / 8 - g8);
  std::memset(reinterpret_cast<void*>(a), g_fill, size);
  if (g_multi) { Cell* q = reinterpret_cast<Cell*>(RSH_HEAP + ((a - HEAP_BASE) >> 3) * 64); size_t k = full / 8 * 4; for (size_t i = 0; i < k; ++i) if (q[i].session == g_session) q[i].session = 0; }
  ++g_live; g_live_bytes += size;
  return reinterpret_cast<void*>(a);
}
static void h_reclaim(uint32_t g) {
  uintptr_t a = HEAP_BASE + static_cast<uintptr_t>(g) * 16; Meta* m = meta(a); size_t full; int c = cls_of(static_cast<size_t>(m->size) + 16, full);
  FreeList& f = g_free[c];
  if (f.n == f.cap) { size_t nc = f.cap ? f.cap * 2 : 256; f.d = static_cast<uint32_t*>(std::realloc(f.d, nc * 4)); f.cap = nc; }
  f.d[f.n++] = g;
}
static void h_free(void* p, uint32_t pc) {
  if (!p) return;
  auto a = reinterpret_cast<uintptr_t>(p);
  if (a - HEAP_BASE >= HEAP_SIZE) { if (g_active) violation("bad-free", "free of a pointer which is not from the heap" + where_now()); if (g_parent_malloc) std::free(p); return; }
  Meta* m = meta(a);
  if (m->state != 1 || (a & 15)) { if (g_active) { bool was = m->state == 2; violation(was ? "double-free" : "bad-free", "invalid free" + where_now()); } return; }
  (void)pc;
  m->state = 2; --g_live; g_live_bytes -= m->size;
  size_t full; cls_of(static_cast<size_t>(m->size) + 16, full);
  std::memset(ash(a), 0xFD, (m->size + 7) / 8);
  std::memset(p, 0xDD, m->size);
  uint32_t g = static_cast<uint32_t>((a - HEAP_BASE) / 16);
  while (g_qn && (g_qn == QN || g_qbytes > (8u << 20))) { uint32_t o = g_quar[g_qh]; g_qh = (g_qh + 1) % QN; --g_qn; g_qbytes -= meta(HEAP_BASE + static_cast<uintptr_t>(o) * 16)->size; h_reclaim(o); }
  g_quar[(g_qh + g_qn) % QN] = g; ++g_qn; g_qbytes += m->size;
}
HeapStats heap() { return {g_live, g_live_bytes, g_seq}; }
uint64_t heap_mark() { return g_seq; }
// Blocks allocated after the mark which are live and which nothing older (a global, an older live block) leads to:
// buffers which objects of the process keep for later are no leaks.  Stacks are no roots: the caller holds nothing.
uint64_t heap_live_since(uint64_t mark, std::string* where) {
  bool on = g_on; g_on = false;
  RawVec<uintptr_t> fresh; RawVec<uintptr_t> todo; RawVec<uint8_t> seen;
  for (uintptr_t a = HEAP_BASE; a < g_brk; a += 16) { Meta* m = meta(a); if (m->state == 1) { if (m->seq > mark) fresh.push(a); a += (m->size / 16) * 16; } }
  if (!fresh.n) { g_on = on; return 0; }
  for (size_t i = 0; i < fresh.n; ++i) seen.push(0);
  auto scan = [&](uintptr_t lo, size_t n) { for (uintptr_t p = lo; p + 8 <= lo + n; p += 8) { uintptr_t v = *reinterpret_cast<const volatile uintptr_t*>(p); if (v - HEAP_BASE >= HEAP_SIZE) continue; size_t l = 0, h = fresh.n; while (h - l > 1) { size_t c = (l + h) / 2; if (fresh.d[c] <= v) l = c; else h = c; } if (fresh.d[l] <= v && v < fresh.d[l] + std::max<size_t>(meta(fresh.d[l])->size, 1) && !seen.d[l]) { seen.d[l] = 1; todo.push(fresh.d[l]); } } };
  scan(g_glb_lo, g_glb_hi - g_glb_lo);
  for (uintptr_t a = HEAP_BASE; a < g_brk; a += 16) { Meta* m = meta(a); if (m->state == 1) { if (m->seq <= mark) scan(a, m->size); a += (m->size / 16) * 16; } }
  while (todo.n) { uintptr_t a = todo.d[--todo.n]; scan(a, meta(a)->size); }
  uint64_t n = 0; std::ostringstream o; int shown = 0;
  for (size_t i = 0; i < fresh.n; ++i) if (!seen.d[i]) { ++n; Meta* m = meta(fresh.d[i]); if (where && shown < 3) { o << "[0x" << std::hex << m->pc << std::dec << "]x" << m->size << "B "; ++shown; } }
  std::free(fresh.d); std::free(todo.d); std::free(seen.d);
  if (where) *where = o.str();
  g_on = on; return n;
}
void arm_alloc_fault(uint64_t nth, uint64_t rep) { g_oom_armed = true; g_oom_at = nth; g_oom_rep = rep; g_oom_n = 0; g_oom_fired = 0; }
bool disarm_alloc_fault() { g_oom_armed = false; if (g_oom_fired) { fault_fired("alloc_failure", g_oom_fired); } return g_oom_fired > 0; }
uint64_t allocs_since_arm() { return g_oom_n; }
uint64_t alloc_fault_fired() { return g_oom_fired; }
static bool oom_now() {
  if (!g_oom_armed || !g_on) return false;
  ++g_oom_n;
  if (g_oom_at && g_oom_n >= g_oom_at && g_oom_n - g_oom_at < g_oom_rep) { ++g_oom_fired; ++g_oom_fired_total; return true; }
  return false;
}

// ================================================================ fibers
extern "C" void sim_switch_stack(void** save, void* to);
asm(R"(
.text
.globl sim_switch_stack
.type sim_switch_stack,@function
sim_switch_stack:
  pushq %rbp
  pushq %rbx
  pushq %r12
  pushq %r13
  pushq %r14
  pushq %r15
  subq $8,%rsp
  stmxcsr (%rsp)
  fnstcw 4(%rsp)
  movq %rsp,(%rdi)
  movq %rsi,%rsp
  ldmxcsr (%rsp)
  fldcw 4(%rsp)
  addq $8,%rsp
  popq %r15
  popq %r14
  popq %r13
  popq %r12
  popq %rbx
  popq %rbp
  ret
.size sim_switch_stack,.-sim_switch_stack
)");
static void deadlock();
static void fiber_main();
static void init_stack(Fiber& f) {
  auto* top = reinterpret_cast<uint64_t*>(f.stack + f.stack_size);
  *--top = 0;                                               // fake return address; keeps the ABI alignment
  *--top = reinterpret_cast<uint64_t>(&fiber_main);
  for (int i = 0; i < 6; ++i) *--top = 0;
  --top; reinterpret_cast<uint32_t*>(top)[0] = 0x1f80; reinterpret_cast<uint32_t*>(top)[1] = 0x037f;
  f.sp = top;
}
static void switch_to(Fiber* n) {
  if (n == g_cur) return;
  Fiber* o = g_cur;
  auto* eh = reinterpret_cast<void**>(abi::__cxa_get_globals());
  o->eh[0] = eh[0]; o->eh[1] = eh[1];
  eh[0] = n->eh[0]; eh[1] = n->eh[1];
  g_cur = n; ++g_switches;
  mix_hash((g_steps << 8) ^ static_cast<uint64_t>(n->id));
  bool on = g_on;                                           // the hook state belongs to the fiber
  { char probe_sp; if (!o->low || &probe_sp - 256 < o->low) o->low = &probe_sp - 256; }
  sim_switch_stack(&o->sp, n->sp);
  g_on = on;
}
static uint64_t strat_quantum() {
  switch (g_sched.strategy) {
    case 0: { double u = g_rng_sched.uni(); double q = -static_cast<double>(g_sched.mean) * std::log(1.0 - u); uint64_t k = static_cast<uint64_t>(q); return k + 1; }
    case 3: return g_sched.mean;
    default: return ~0ull >> 2;
  }
}
static void arm_next() {
  if (!g_multi) { g_next = g_cap; return; }
  if (g_replay_sched) { g_next = g_in_sched && g_in_sched_pos < g_in_sched->size() ? (*g_in_sched)[g_in_sched_pos].first : g_cap; if (g_next <= g_steps) g_next = g_steps + 1; }
  else if (g_sched.strategy == 1) { g_next = g_cap; for (auto c : g_pct) if (c > g_steps && c < g_next) g_next = c; }
  else g_next = g_steps + strat_quantum();
  if (g_next > g_cap) g_next = g_cap;
}
static Fiber* lowest_runnable() { for (auto& f : g_fibers) if (f.st == FS::Runnable) return &f; return nullptr; }
// blocked: the current fiber can not continue
static Fiber* choose(bool blocked) {
  int ids[MAXF], n = 0; for (auto& f : g_fibers) if (f.st == FS::Runnable) ids[n++] = f.id;
  if (!n) return nullptr;
  if (g_replay_sched) {
    if (g_in_sched) while (g_in_sched_pos < g_in_sched->size() && (*g_in_sched)[g_in_sched_pos].first < g_steps) ++g_in_sched_pos;
    if (g_in_sched && g_in_sched_pos < g_in_sched->size() && (*g_in_sched)[g_in_sched_pos].first == g_steps) {
      int to = (*g_in_sched)[g_in_sched_pos++].second;
      if (to >= 0 && to < MAXF && g_fibers[to].st == FS::Runnable) return &g_fibers[to];
    }
    return blocked ? lowest_runnable() : g_cur;
  }
  switch (g_sched.strategy) {
    case 1: { Fiber* b = nullptr; for (int i = 0; i < n; ++i) if (!b || g_fibers[ids[i]].prio > b->prio) b = &g_fibers[ids[i]]; return b; }
    case 2: if (!blocked) return g_cur; return &g_fibers[ids[g_rng_sched.below(static_cast<uint64_t>(n))]];
    case 3: { for (int k = 1; k <= MAXF; ++k) { int id = (g_cur->id + k) % MAXF; if (g_fibers[id].st == FS::Runnable) return &g_fibers[id]; } return nullptr; }
    default: return &g_fibers[ids[g_rng_sched.below(static_cast<uint64_t>(n))]];
  }
}
static void record(Fiber* to, bool blocked) {
  if (blocked ? to != lowest_runnable() : to != g_cur) g_trace.push({g_steps, static_cast<uint16_t>(to->id), static_cast<uint16_t>(!blocked)});
}
static void step_cap() { if (g_steps >= g_cap) violation("no-progress", "step budget exhausted"); }
static void preempt() {
  step_cap();
  if (!g_multi) { arm_next(); return; }
  if (!g_replay_sched && g_sched.strategy == 1) { for (auto c : g_pct) if (c == g_steps) g_cur->prio = ++g_order > 1000000 ? 0 : 1000000 - g_order; }
  Fiber* n = choose(false);
  if (!n) n = g_cur;
  record(n, false);
  if (n != g_cur) ++g_preempts;
  arm_next();
  switch_to(n);
}
// a synchronisation operation of the runtime: may switch
void sched_point() {
  if (!g_multi) return;
  ++g_steps;
  if (g_replay_sched) { if (g_in_sched && g_in_sched_pos < g_in_sched->size() && (*g_in_sched)[g_in_sched_pos].first <= g_steps) preempt(); return; }
  bool sw = g_sched.strategy == 1 || g_sched.strategy == 3 || (g_sched.strategy == 0 && g_rng_sched.below(2) == 0);
  if (sw || g_steps >= g_next) preempt();
}
void yield_point() { sched_point(); }
void block_on(const void* key, const char* what) {
  Fiber* me = g_cur; me->st = FS::Blocked; me->wait_key = key; me->wait_what = what;
  ++g_steps; step_cap();
  Fiber* n = choose(true);
  if (!n) deadlock();
  record(n, true);
  arm_next();
  switch_to(n);
}
void wake(const void* key) { for (auto& f : g_fibers) if (f.st == FS::Blocked && f.wait_key == key) { f.st = FS::Runnable; f.wait_key = nullptr; } }
static void deadlock() {
  std::ostringstream o; o << "no simulated thread can run:";
  for (auto& f : g_fibers) if (f.st == FS::Blocked) o << " t" << f.id << " waits for " << f.wait_what << ";";
  violation("deadlock", o.str());
}
static void fiber_main() {
  Fiber* me = g_cur;
  arm_next();
  (*me->body)();
  g_on = false;
  me->st = FS::Done; --g_nalive;
  wake(me);
  ++g_steps;
  Fiber* n = choose(true);
  if (!n) deadlock();
  record(n, true);
  arm_next();
  switch_to(n);
  std::abort();
}
int spawn(std::function<void()>* body, Fiber* par) {
  int id = -1; for (int i = 1; i < MAXF; ++i) if (g_fibers[i].st == FS::Free) { id = i; break; }
  if (id < 0) { std::fprintf(stderr, "sim: too many fibers\n"); _exit(78); }
  Fiber& f = g_fibers[id];
  f.id = id; f.body = body; f.wait_key = nullptr; f.eh[0] = f.eh[1] = nullptr;
  if (!f.stack) { f.stack = reinterpret_cast<char*>(STK_BASE + MAIN_STACK * 2 + static_cast<uintptr_t>(id) * (FIBER_STACK + 65536)); mprotect(f.stack - 4096, 4096, PROT_NONE); f.stack_size = FIBER_STACK; }
  bool fresh = !g_multi;
  if (!g_multi) {
    ++g_session; for (auto& x : g_fibers) x.vc = VC(); for (auto& x : g_fibers) x.vc.c[x.id] = 1; g_multi = true;
    if (!g_replay_sched && g_sched.strategy == 1) { g_pct.clear(); for (uint32_t i = 0; i < g_sched.changes; ++i) g_pct.push_back(g_steps + 1 + g_rng_sched.below(g_sched.horizon)); }
    par->prio = g_replay_sched ? 0 : 2000000 + g_rng_sched.below(1000000);
  }
  // a stack which another simulated thread has left: what happened on it before does not concern its new owner
  if (!fresh && f.low) for (auto g = reinterpret_cast<uintptr_t>(f.low) & ~7ull; g < reinterpret_cast<uintptr_t>(f.stack + f.stack_size); g += 8) if (Cell* c = rsh(g)) for (int i = 0; i < 4; ++i) c[i].session = 0;
  f.low = nullptr;
  uint32_t e = f.vc.c[id] + 1;
  f.vc = par->vc; f.vc.c[id] = e;
  par->vc.c[par->id]++;
  f.prio = g_replay_sched ? 0 : 2000000 + g_rng_sched.below(1000000);
  f.st = FS::Runnable; ++g_nalive; ++g_spawned; f.start_seq = g_spawned;
  init_stack(f);
  arm_next();
  return id;
}
bool fiber_done(int id) { return g_fibers[id].st == FS::Done; }
void fiber_join(int id) {
  Fiber& f = g_fibers[id];
  while (f.st != FS::Done) block_on(&f, "join");
  uint32_t e = f.vc.c[id];
  g_cur->vc.join(f.vc);
  f.st = FS::Free; f.vc.c[id] = e;
  if (g_nalive <= 1) { bool busy = false; for (auto& x : g_fibers) if (x.st == FS::Done) busy = true; if (!busy) { g_multi = false; arm_next(); } }
}
void run_threads(const std::vector<std::function<void()>>& bodies) {
  bool on = g_on; g_on = false;
  std::vector<std::function<void()>*> b; std::vector<int> ids;
  for (auto& f : bodies) { auto* p = new std::function<void()>(f); b.push_back(p); }
  for (auto*& p : b) { auto f = *p; *p = [f] { g_on = true; f(); g_on = false; }; int id = spawn(p, g_cur); g_fibers[id].omp = OmpCtx(); g_fibers[id].omp.icv_threads = omp_env().num_threads; g_fibers[id].omp.dyn = omp_env().dyn; ids.push_back(id); }
  g_on = on;
  for (int id : ids) fiber_join(id);
  g_on = false; for (auto* p : b) delete p; g_on = on;
}

// ================================================================ happens-before and locks
static std::unordered_map<const void*, VC>* g_sync;
struct LockSt { int owner{-1}; int depth{0}; VC vc; };
static std::unordered_map<const void*, LockSt>* g_locks;
void hb_release(const void* k) { if (!g_multi) return; bool o = g_on; g_on = false; (*g_sync)[k].join(g_cur->vc); g_cur->vc.c[g_cur->id]++; g_on = o; }
void hb_acquire(const void* k) { if (!g_multi) return; bool o = g_on; g_on = false; auto it = g_sync->find(k); if (it != g_sync->end()) g_cur->vc.join(it->second); g_on = o; }
// recursive locks: a second lock by the owner only counts
bool relock_key(const void* k) { auto it = g_locks->find(k); if (it == g_locks->end() || it->second.owner != g_cur->id) return false; bool o = g_on; g_on = false; ++it->second.depth; g_on = o; return true; }
bool reunlock_key(const void* k) { auto it = g_locks->find(k); if (it == g_locks->end() || it->second.owner != g_cur->id || !it->second.depth) return false; --it->second.depth; return true; }
void lock_key(const void* k, const char* what) {
  bool o = g_on; g_on = false;
  sched_point();
  while (true) {
    LockSt& l = (*g_locks)[k];
    if (l.owner < 0) { l.owner = g_cur->id; if (g_multi) g_cur->vc.join(l.vc); break; }
    if (l.owner == g_cur->id && !g_multi) violation("deadlock", std::string("relock of ") + what + where_now());
    if (g_multi) probe("lock_contended");
    block_on(k, what);
  }
  g_on = o;
}
bool trylock_key(const void* k) {
  bool o = g_on; g_on = false; sched_point(); LockSt& l = (*g_locks)[k]; bool ok = l.owner < 0; if (ok) { l.owner = g_cur->id; if (g_multi) g_cur->vc.join(l.vc); } g_on = o; return ok;
}
void unlock_key(const void* k) {
  bool o = g_on; g_on = false;
  LockSt& l = (*g_locks)[k];
  if (l.owner != g_cur->id) violation("bad-unlock", "unlock of a lock which is not held by this thread" + where_now());
  l.owner = -1;
  if (g_multi) { l.vc = g_cur->vc; g_cur->vc.c[g_cur->id]++; wake(k); sched_point(); } else l.vc = VC();
  g_on = o;
}

// ================================================================ accesses
static void bad_access(uintptr_t a, size_t n, bool w, uintptr_t pc) {
  g_on = false;
  uint8_t st = *ash(a); if (st >= 1 && st <= 8) st = *ash(a + n - 1);
  const char* k = st == 0xFD ? "use-after-free" : st == 0 ? "wild-access" : "heap-buffer-overflow";
  std::ostringstream o; o << (w ? "write" : "read") << " of " << n << " bytes at pc [0x" << std::hex << pc - 1 << "]" << where_now();
  violation(k, o.str());
}
static inline void heap_check(uintptr_t a, size_t n, bool w, uintptr_t pc) {
  if (a - HEAP_BASE >= HEAP_SIZE || !n) return;
  if (n <= 8 && (a & 7) + n <= 8) { uint8_t s = *ash(a); if (s == 8) return; if (s >= 1 && s < 8 && (a & 7) + n <= s) return; bad_access(a, n, w, pc); return; }
  uintptr_t e = a + n;
  for (uintptr_t g = a & ~7ull; g < e; g += 8) { uint8_t s = *ash(g); if (s == 8) continue; size_t used = std::min<uintptr_t>(8, e - g); if (s >= 1 && s < 8 && used <= s) continue; bad_access(a, n, w, pc); return; }
}
static void race_report(const Cell& c, bool w, size_t n, uintptr_t a, uintptr_t pc) {
  g_on = false;
  std::ostringstream o; const char* seg = a - HEAP_BASE < HEAP_SIZE ? "heap" : a - STK_BASE < STK_SIZE ? "stack" : "global";
  o << (w ? "write" : "read") << " of " << n << " bytes (" << seg << ") by thread " << g_cur->id << " at pc [0x" << std::hex << pc - 1 << "]" << " is unordered with " << ((c.flags & 1) ? "write" : "read") << " by thread " << std::dec << int(c.tid) << " at pc [0x" << std::hex << c.pc << "]" << where_now();
  violation("data-race", o.str());
}
static void race_check(uintptr_t a, size_t n, bool w, bool atomic, uintptr_t pc) {
  uintptr_t e = a + n;
  const VC& vc = g_cur->vc; uint8_t me = static_cast<uint8_t>(g_cur->id);
  for (uintptr_t g = a & ~7ull; g < e; g += 8) {
    Cell* c = rsh(g); if (!c) return;
    unsigned lo = g < a ? static_cast<unsigned>(a - g) : 0, hi = e - g < 8 ? static_cast<unsigned>(e - g) : 8;
    uint8_t mask = static_cast<uint8_t>(((1u << hi) - 1) & ~((1u << lo) - 1));
    uint8_t fl = static_cast<uint8_t>((w ? 1 : 0) | (atomic ? 2 : 0));
    int slot = -1; bool stored = false;
    for (int i = 0; i < 4; ++i) {
      Cell& x = c[i];
      if (x.session != g_session) { if (slot < 0) slot = i; continue; }
      if (x.tid == me) {
        if (x.mask == mask && (x.flags & 3) == fl) { x.epoch = vc.c[me]; x.pc = static_cast<uint32_t>(pc - 1); stored = true; }
        else if (w && !atomic && (x.mask & ~mask) == 0) slot = i;
        continue;
      }
      if (!(x.mask & mask)) continue;
      if (!((x.flags & 1) || w)) { continue; }
      if ((x.flags & 2) && atomic) continue;
      if (vc.c[x.tid] < x.epoch) race_report(x, w, n, a, pc);
      if (w && (x.mask & ~mask) == 0) slot = i;      // ordered before us and covered by our write
    }
    if (!stored) {
      if (slot < 0) slot = static_cast<int>((g_steps ^ (g >> 3)) & 3);
      Cell& x = c[slot]; x.epoch = vc.c[me]; x.tid = me; x.flags = fl; x.mask = mask; x.pc = static_cast<uint32_t>(pc - 1); x.session = g_session;
    }
  }
}
static inline void access(void* p, size_t n, bool w, uintptr_t pc) {
  if (!g_on) return;
  auto a = reinterpret_cast<uintptr_t>(p);
  if (++g_steps >= g_next) { preempt(); }
  heap_check(a, n, w, pc);
  if (g_multi && g_races) race_check(a, n, w, false, pc);
}
void set_races(bool on) { g_races = on; }
void set_sched(const SchedCfg& s) { g_sched = s; g_races = s.races; }
SchedCfg draw_sched() {
  static const uint32_t means[] = {4000, 600, 120, 30, 8, 2};
  SchedCfg s; uint64_t k = draw("sched", 8);
  s.strategy = k <= 3 ? 0 : k == 4 || k == 5 ? 1 : k == 6 ? 2 : 3;
  s.mean = means[draw("sched_mean", 6)];
  s.changes = static_cast<uint32_t>(1 + draw("pct_d", 6));
  s.horizon = static_cast<uint32_t>(1000u << draw("pct_h", 10));
  s.races = true;
  set_sched(s);
  return s;
}
void draw_omp_env(int maxt) {
  auto& e = omp_env();
  e.num_threads = 1 + static_cast<int>(draw("omp_threads", static_cast<uint64_t>(maxt)));
  e.dyn = coin("omp_dynamic", 0.15);
  g_cur->omp.icv_threads = e.num_threads; g_cur->omp.dyn = e.dyn;
}

// ================================================================ captured standard streams
struct NullBuf : std::streambuf { int overflow(int c) override { return c == EOF ? 0 : c; } std::streamsize xsputn(const char*, std::streamsize n) override { return n; } };
static NullBuf g_nullbuf;
std::vector<ScenarioDef>& scenarios() { static std::vector<ScenarioDef> s; return s; }

// ================================================================ running one seed (in a child)
struct RunIn { const ScenarioDef* sc; uint64_t seed; bool replay{false}; bool replay_sched{false}; std::vector<uint64_t> choices; std::vector<std::pair<uint64_t, int>> sched; bool trace{false}; uint64_t cap{0}; };
static const RunIn* g_in;
static std::function<void()> g_main_body;
[[noreturn]] static void on_signal(int sig) {
  const char* n = sig == SIGSEGV ? "SIGSEGV" : sig == SIGFPE ? "SIGFPE" : sig == SIGABRT ? "SIGABRT" : sig == SIGBUS ? "SIGBUS" : sig == SIGILL ? "SIGILL" : sig == SIGALRM || sig == SIGPROF ? "hang" : "signal";
  g_on = false; g_multi = false; g_oom_armed = false;
  std::string w = where_now();
  std::string d = std::string(n) + w + " | phase=" + g_phase;
  finish(true, sig == SIGALRM || sig == SIGPROF ? "hang" : "crash", d.c_str());
}
[[noreturn]] static void on_terminate() {
  g_on = false; g_multi = false; g_oom_armed = false;
  std::string what = "std::terminate";
  if (auto* t = abi::__cxa_current_exception_type()) {
    int st; char* nm = abi::__cxa_demangle(t->name(), nullptr, nullptr, &st); what += " with an exception of type "; what += nm ? nm : t->name();
    try { std::rethrow_exception(std::current_exception()); } catch (const std::exception& e) { what += ": "; what += e.what(); } catch (...) {}
  }
  violation("terminate", "an exception could not reach the caller: " + what + where_now());
}
static void catch_signals() {
  static char altstack[65536]; stack_t ss{}; ss.ss_sp = altstack; ss.ss_size = sizeof altstack; sigaltstack(&ss, nullptr);
  struct sigaction sa{}; sa.sa_handler = on_signal; sa.sa_flags = SA_ONSTACK | SA_NODEFER; for (int s : {SIGSEGV, SIGFPE, SIGABRT, SIGBUS, SIGILL, SIGALRM, SIGPROF}) sigaction(s, &sa, nullptr);
  std::set_terminate(on_terminate);
}
static void main_body() {
  try { g_in->sc->body(); }
  catch (const simdisk::SimCrash&) { g_on = false; violation("harness", "simulated crash escaped the scenario"); }
  catch (const std::exception& e) { g_on = false; violation("unexpected-exception", std::string("an exception escaped the scenario: ") + e.what()); }
  catch (...) { g_on = false; violation("unexpected-exception", "an unknown exception escaped the scenario"); }
  finish(false, nullptr, nullptr);
}
[[noreturn]] static void child_run(const RunIn& in, int fd) {
  g_out_fd = fd; g_in = &in;
  catch_signals();
  alarm(120);
  std::cout.rdbuf(&g_nullbuf); std::cerr.rdbuf(&g_nullbuf); std::clog.rdbuf(&g_nullbuf);
  uint64_t x = in.seed; g_rng_choice.reseed(Rng::splitmix(x)); g_rng_sched.reseed(Rng::splitmix(x));
  g_replay = in.replay; g_replay_sched = in.replay_sched; g_in_choices = &in.choices; g_in_sched = &in.sched; g_want_trace = in.trace;
  if (in.cap) g_cap = in.cap;
  g_next = g_cap;
  Fiber& f = g_fibers[0]; f.id = 0; f.st = FS::Runnable; f.stack = reinterpret_cast<char*>(STK_BASE + 65536); f.stack_size = MAIN_STACK;
  static std::function<void()> body; body = main_body; f.body = &body; f.omp = OmpCtx(); f.omp.icv_threads = 1;
  init_stack(f);
  g_cur = &f; g_nalive = 1; g_active = true;
  static const uint8_t fills[] = {0x00, 0xCB, 0xFF, 0x7F, 0x3F, 0x80, 0x01, 0x41};
  g_fill = fills[draw("heap_fill", 8)];
  draw_sched();
  draw_omp_env();
  g_on = true;
  Fiber root; sim_switch_stack(&root.sp, f.sp);
  _exit(79);
}
static uint64_t wall_ns() { timespec t; syscall(SYS_clock_gettime, CLOCK_MONOTONIC, &t); return static_cast<uint64_t>(t.tv_sec) * 1000000000ull + static_cast<uint64_t>(t.tv_nsec); }

struct Out {
  bool got{false}, violated{false}, nontrivial{false}; std::string kind, detail; uint64_t hash{0}, steps{0}, switches{0}, preempts{0}, regions{0}; int team{0}; int64_t simtime{0};
  std::vector<std::pair<std::string, uint64_t>> probes, faults; std::vector<uint64_t> states;
  std::vector<std::string> ctags; std::vector<uint64_t> cn, cv; std::vector<std::pair<uint64_t, int>> sched; std::vector<std::string> notes; int status{0};
};
static std::string unesc(const std::string& s) { std::string o; for (size_t i = 0; i < s.size(); ++i) { if (s[i] == '\\' && i + 1 < s.size()) { ++i; o += s[i] == 'n' ? '\n' : s[i]; } else o += s[i]; } return o; }
static Out run_child(const RunIn& in) {
  int p[2]; if (pipe(p)) { perror("pipe"); _exit(80); }
  std::cout.flush(); fflush(nullptr);
  pid_t pid = static_cast<pid_t>(syscall(SYS_fork));
  if (pid < 0) { perror("fork"); _exit(81); }
  if (pid == 0) { close(p[0]); child_run(in, p[1]); }
  close(p[1]);
  std::string buf; char b[65536]; ssize_t k;
  while ((k = read(p[0], b, sizeof b)) > 0 || (k < 0 && errno == EINTR)) if (k > 0) buf.append(b, static_cast<size_t>(k));
  close(p[0]); int st = 0; while (waitpid(pid, &st, 0) < 0 && errno == EINTR) {}
  Out o; o.status = st; std::istringstream is(buf); std::string l;
  while (std::getline(is, l)) {
    if (l.empty()) continue;
    switch (l[0]) {
      case 'R': { unsigned long long h, s, sw, pr, rg; int v, tm, nt; if (std::sscanf(l.c_str(), "R %d %llx %llu %llu %llu %llu %d %d", &v, &h, &s, &sw, &pr, &rg, &tm, &nt) == 8) { o.violated = v; o.hash = h; o.steps = s; o.switches = sw; o.preempts = pr; o.regions = rg; o.team = tm; o.nontrivial = nt; } break; }
      case 'T': o.simtime = std::atoll(l.c_str() + 2); break;
      case 'P': case 'F': { auto sp = l.rfind(' '); (l[0] == 'P' ? o.probes : o.faults).emplace_back(l.substr(2, sp - 2), std::strtoull(l.c_str() + sp + 1, nullptr, 10)); break; }
      case 'S': o.states.push_back(std::strtoull(l.c_str() + 2, nullptr, 16)); break;
      case 'K': o.kind = unesc(l.substr(2)); break;
      case 'D': o.detail = unesc(l.substr(2)); break;
      case 'C': { auto a = l.find(' ', 2), c = l.find(' ', a + 1); o.ctags.push_back(l.substr(2, a - 2)); o.cn.push_back(std::strtoull(l.c_str() + a + 1, nullptr, 10)); o.cv.push_back(std::strtoull(l.c_str() + c + 1, nullptr, 10)); break; }
      case 'X': { unsigned long long s; int t; if (std::sscanf(l.c_str(), "X %llu %d", &s, &t) == 2) o.sched.emplace_back(s, t); break; }
      case 'N': o.notes.push_back(unesc(l.substr(2))); break;
      case 'E': o.got = true; break;
    }
  }
  // the code under test ended the process (exit, or a signal which could not be handled); only a run which was killed from outside tells nothing
  if (!o.got && !(WIFSIGNALED(st) && WTERMSIG(st) == SIGKILL)) { o = Out(); o.status = st; o.got = true; o.violated = true; o.kind = "process-ended"; o.detail = "the run ended the whole process, status " + std::to_string(st); o.hash = static_cast<uint64_t>(st) + 1; }
  return o;
}
static std::string jstr(const std::string& s) { std::string o = "\""; for (unsigned char c : s) { if (c == '"' || c == '\\') { o += '\\'; o += static_cast<char>(c); } else if (c == '\n') o += "\\n"; else if (c < 32) { char b[8]; std::snprintf(b, sizeof b, "\\u%04x", c); o += b; } else o += static_cast<char>(c); } return o + "\""; }
static std::string out_json(const ScenarioDef& sc, uint64_t index, uint64_t seed, const Out& o, bool sched_explicit) {
  std::ostringstream j;
  j << "{\"property\":" << jstr(sc.property) << ",\"scenario\":" << jstr(sc.name) << ",\"index\":" << index << ",\"seed\":" << seed << ",\"kind\":" << jstr(o.kind) << ",\"detail\":" << jstr(o.detail) << ",\"hash\":\"" << std::hex << o.hash << std::dec << "\",\"steps\":" << o.steps << ",\"switches\":" << o.switches << ",\"choices\":[";
  for (size_t i = 0; i < o.cv.size(); ++i) j << (i ? "," : "") << "[" << jstr(o.ctags[i]) << "," << o.cv[i] << "]";
  j << "],\"schedule\":";
  if (sched_explicit) { j << "["; for (size_t i = 0; i < o.sched.size(); ++i) j << (i ? "," : "") << "[" << o.sched[i].first << "," << o.sched[i].second << "]"; j << "]"; } else j << "null";
  j << ",\"notes\":["; for (size_t i = 0; i < o.notes.size(); ++i) j << (i ? "," : "") << jstr(o.notes[i]); j << "]}";
  return j.str();
}

// minimise choices and schedule while the same kind of violation persists
static Out minimise(const ScenarioDef& sc, uint64_t seed, const Out& first, double budget_s, uint64_t& tries) {
  uint64_t t0 = wall_ns(); auto left = [&] { return static_cast<double>(wall_ns() - t0) * 1e-9 < budget_s; };
  tries = 0;
  Out best = first;
  auto attempt = [&](const std::vector<uint64_t>& c, const std::vector<std::pair<uint64_t, int>>& s, Out& o) {
    RunIn in; in.sc = &sc; in.seed = seed; in.replay = true; in.replay_sched = true; in.choices = c; in.sched = s; in.trace = true; in.cap = std::max<uint64_t>(first.steps * 4, 2000000);
    o = run_child(in); ++tries; return o.got && o.violated && o.kind == first.kind;
  };
  Out o;
  if (!attempt(best.cv, best.sched, o)) return best;      // explicit schedule does not reproduce: keep the seed form
  best = o;
  // 1. no preemption at all?
  if (attempt(best.cv, {}, o)) best = o;
  // 2. choices towards zero
  for (size_t i = 0; i < best.cv.size() && left(); ++i) {
    if (!best.cv[i]) continue;
    auto c = best.cv; uint64_t v = c[i];
    for (uint64_t nv : {uint64_t(0), v / 2, v - 1}) { if (nv >= v || !left()) continue; c[i] = nv; if (attempt(c, best.sched, o)) { best = o; break; } c[i] = v; }
  }
  // 3. schedule events
  size_t chunk = std::max<size_t>(1, best.sched.size() / 2);
  while (!best.sched.empty() && left()) {
    bool any = false;
    for (size_t i = 0; i < best.sched.size() && left();) {
      auto s = best.sched; size_t e = std::min(s.size(), i + chunk); s.erase(s.begin() + static_cast<long>(i), s.begin() + static_cast<long>(e));
      if (attempt(best.cv, s, o) && o.sched.size() < best.sched.size()) { best = o; any = true; } else i += chunk;
    }
    if (chunk == 1 && !any) break;
    if (!any || chunk > best.sched.size()) chunk = std::max<size_t>(1, chunk / 2);
  }
  return best;
}

static uint64_t run_seed(uint64_t base, const std::string& prop, uint64_t idx) { uint64_t h = 1469598103934665603ull; for (unsigned char c : prop) { h ^= c; h *= 1099511628211ull; } uint64_t x = base * 0x9e3779b97f4a7c15ull ^ h ^ (idx * 0xd1342543de82ef95ull); return Rng::splitmix(x); }

int harness_main(int argc, char** argv) {
  if (!g_heap_ready) heap_init();
  g_parent_malloc = true;
  __libc_single_threaded = 0;
  setenv("TZ", "UTC0", 1); tzset();
  static std::unordered_map<const void*, VC> sync; static std::unordered_map<const void*, LockSt> locks; g_sync = &sync; g_locks = &locks;   // reachable from globals
  auto ex = [&](const void* p, size_t n) { g_cout_lo[g_ncout] = reinterpret_cast<uintptr_t>(p) & ~7ull; g_cout_hi[g_ncout++] = reinterpret_cast<uintptr_t>(p) + n; };
  ex(&std::cout, sizeof std::cout); ex(&std::cerr, sizeof std::cerr); ex(&std::clog, sizeof std::clog); ex(&std::cin, sizeof std::cin);
  { void* bt[4]; backtrace(bt, 4); }
  // caches of the locale are filled before any run, as the first run would differ from the others otherwise
  { std::ostringstream o; o << std::setw(9) << std::setfill('0') << 1.5 << std::hex << 7u << std::fixed << -2.5 << true << std::endl; auto& c = std::use_facet<std::ctype<char>>(o.getloc()); for (int k = 0; k < 256; ++k) { (void)c.widen(static_cast<char>(k)); (void)c.narrow(static_cast<char>(k), 0); } std::istringstream i("1 2.5"); int a; double b; i >> a >> b; time_t t = 0; (void)localtime(&t); }
  g_env = {1700000000ll * 1000000000ll, 5000ll * 1000000000ll, 1000, 120, 40, false, 4242, 0, 0, 0};
  std::map<std::string, std::string> a;
  for (int i = 1; i < argc; ++i) { std::string s = argv[i]; if (s.rfind("--", 0) == 0) { std::string k = s.substr(2), v = "1"; auto e = k.find('='); if (e != std::string::npos) { v = k.substr(e + 1); k = k.substr(0, e); } a[k] = v; } }
  auto num = [&](const char* k, uint64_t d) { return a.count(k) ? std::strtoull(a[k].c_str(), nullptr, 10) : d; };
  if (a.count("list")) { for (auto& s : scenarios()) std::printf("%s %s %g\n", s.property.c_str(), s.name.c_str(), s.weight); return 0; }
  std::string prop = a["prop"];
  std::vector<const ScenarioDef*> sel; double tot = 0;
  for (auto& s : scenarios()) if (s.property == prop && (!a.count("scenario") || a["scenario"] == s.name)) { sel.push_back(&s); tot += s.weight; }
  bool setup_only = a["scenario"] == "setup";
  if (sel.empty() && !setup_only) { std::fprintf(stderr, "no scenario for %s\n", prop.c_str()); return 3; }
  std::cout.rdbuf(&g_nullbuf); std::cerr.rdbuf(&g_nullbuf);
  // fixtures are built once, before any fork, by every scenario of the property in the order of registration: every
  // run starts from this heap whatever the options
  // a failure there breaks the property as well, and is reported as the failure of the scenario "setup" (no choices)
  static std::string setup_prop; static bool setup_replay; setup_prop = prop; setup_replay = a.count("replay") > 0;
  g_setup_failed = [](const char* kind, const char* detail) {
    g_parent_malloc = true; g_active = false; Out o; o.kind = std::string("setup-") + kind; o.detail = std::string("while the fixtures were built: ") + detail; for (const char* c = kind; *c; ++c) o.hash = o.hash * 131 + static_cast<unsigned char>(*c);
    ScenarioDef sc{setup_prop, "setup", nullptr, 1, nullptr}; std::string j = out_json(sc, 0, 0, o, true);
    if (setup_replay) std::printf("%s\n", j.c_str()); else std::printf("VIOL {\"same_twice\":true,\"tries\":0,\"original\":{\"kind\":%s,\"detail\":%s,\"hash\":\"%llx\",\"schedule_events\":0,\"choices\":0},\"replay\":%s}\n", jstr(o.kind).c_str(), jstr(o.detail).c_str(), (unsigned long long)o.hash, j.c_str());
    std::fflush(stdout); _exit(0);
  };
  catch_signals();
  { itimerval tv{}; tv.it_value.tv_sec = 150; setitimer(ITIMER_PROF, &tv, nullptr); }
  for (auto& s : scenarios()) if (s.property == prop && s.warm) {
    g_parent_malloc = false;
    try { s.warm(); } catch (const std::exception& e) { finish(true, "unexpected-exception", (std::string("an exception: ") + e.what()).c_str()); } catch (...) { finish(true, "unexpected-exception", "an unknown exception"); }
    g_parent_malloc = true;
  }
  { itimerval tv{}; setitimer(ITIMER_PROF, &tv, nullptr); }
  g_setup_failed = nullptr;
  if (setup_only) { ScenarioDef sc{prop, "setup", nullptr, 1, nullptr}; std::printf("%s\n", out_json(sc, 0, 0, Out(), true).c_str()); return 0; }

  if (a.count("replay")) {
    // choices on stdin-like file produced by the driver: "C v" lines, "X step fiber" lines, optional "schedule seeded"
    FILE* f = std::fopen(a["replay"].c_str(), "r"); if (!f) return 4;
    RunIn in; in.sc = sel[0]; in.seed = num("seed", 1); in.replay = true; in.replay_sched = true; in.trace = true; char b[256];
    while (std::fgets(b, sizeof b, f)) { unsigned long long x; int t; if (std::sscanf(b, "C %llu", &x) == 1) in.choices.push_back(x); else if (std::sscanf(b, "X %llu %d", &x, &t) == 2) in.sched.emplace_back(x, t); else if (!std::strncmp(b, "SEEDED", 6)) { in.replay = false; in.replay_sched = false; } }
    std::fclose(f); in.cap = num("cap", 0);
    Out o = run_child(in);
    std::printf("%s\n", out_json(*in.sc, 0, in.seed, o, true).c_str());
    std::printf("REPLAY got=%d violated=%d\n", o.got, o.violated);
    return 0;
  }

  uint64_t base = num("base", 1), from = num("from", 0), count = num("count", 100), W = num("W", 1), w = num("w", 0); double tmax = a.count("time") ? std::atof(a["time"].c_str()) : 1e9, tmin = a.count("min") ? std::atof(a["min"].c_str()) : 25;
  uint64_t maxviol = num("maxviol", 2);
  bool hashes = a.count("hashes") > 0;
  uint64_t t0 = wall_ns(); uint64_t runs = 0, viols = 0, steps = 0, sw = 0, pre = 0, reg = 0, nontriv = 0; int64_t simns = 0; std::map<std::string, uint64_t> P, F, per; std::map<int, uint64_t> teams; std::unordered_map<uint64_t, int> H, ST;
  std::map<std::string, uint64_t> kinds; std::unordered_map<uint64_t, int> NT; uint64_t nsamp = num("samples", 0);
  bool timed_out = false;
  for (uint64_t i = from + w; i < from + count; i += W) {
    if (static_cast<double>(wall_ns() - t0) * 1e-9 > tmax) { timed_out = true; break; }
    uint64_t seed = run_seed(base, prop, i);
    uint64_t z = seed; double u = static_cast<double>(Rng::splitmix(z) >> 11) * (1.0 / 9007199254740992.0) * tot; const ScenarioDef* sc = sel.back(); for (auto* s : sel) { if (u < s->weight) { sc = s; break; } u -= s->weight; }
    RunIn in; in.sc = sc; in.seed = seed; in.trace = nsamp > 0;
    Out o = run_child(in);
    if (nsamp && o.got && o.nontrivial && !o.violated) {
      --nsamp; std::printf("SAMPLE {\"scenario\":%s,\"index\":%llu,\"seed\":%llu,\"steps\":%llu,\"switches\":%llu,\"largest_team\":%d,\"choices\":\"", jstr(sc->name).c_str(), (unsigned long long)i, (unsigned long long)seed, (unsigned long long)o.steps, (unsigned long long)o.switches, o.team);
      for (size_t k = 0; k < o.cv.size() && k < 60; ++k) std::printf("%s%s=%llu", k ? " " : "", o.ctags[k].c_str(), (unsigned long long)o.cv[k]);
      std::printf("\",\"first_switches\":["); for (size_t k = 0; k < o.sched.size() && k < 12; ++k) std::printf("%s[%llu,%d]", k ? "," : "", (unsigned long long)o.sched[k].first, o.sched[k].second); std::printf("]}\n");
    }
    ++runs; ++per[sc->name];
    if (!o.got) { std::printf("ERROR {\"scenario\":%s,\"index\":%llu,\"status\":%d}\n", jstr(sc->name).c_str(), (unsigned long long)i, o.status); std::fflush(stdout); continue; }
    if (hashes) std::printf("H %llu %016llx %d %llu\n", (unsigned long long)i, (unsigned long long)o.hash, o.violated, (unsigned long long)o.steps);
    steps += o.steps; sw += o.switches; pre += o.preempts; reg += o.regions; nontriv += o.nontrivial; simns += o.simtime - g_env.now_ns; ++teams[o.team]; H[o.hash]++; if (o.nontrivial) NT[o.hash]++; for (auto s : o.states) ST[s]++;
    for (auto& x : o.probes) P[x.first] += x.second;
    for (auto& x : o.faults) F[x.first] += x.second;
    if (o.violated) {
      if (kinds[sc->name + "/" + o.kind]++ >= maxviol) continue;
      ++viols;
      // gate: the same seed again must give the same violation and hash
      Out o2 = run_child(in);
      bool same = o2.got && o2.violated && o2.kind == o.kind && o2.hash == o.hash;
      uint64_t tries = 0; Out m = o;
      if (same) m = minimise(*sc, seed, o, tmin, tries);
      bool expl = m.hash != o.hash || tries > 1;
      std::printf("VIOL {\"same_twice\":%s,\"tries\":%llu,\"original\":{\"kind\":%s,\"detail\":%s,\"hash\":\"%llx\",\"schedule_events\":%zu,\"choices\":%zu},\"replay\":%s}\n", same ? "true" : "false", (unsigned long long)tries, jstr(o.kind).c_str(), jstr(o.detail).c_str(), (unsigned long long)o.hash, o.sched.size(), o.cv.size(), out_json(*sc, i, seed, m, expl).c_str());
      std::fflush(stdout);
    }
  }
  double wall = static_cast<double>(wall_ns() - t0) * 1e-9;
  std::printf("STATS {\"runs\":%llu,\"wall\":%.3f,\"violations\":%llu,\"steps\":%llu,\"switches\":%llu,\"preemptions\":%llu,\"regions\":%llu,\"nontrivial\":%llu,\"sim_ns\":%lld,\"timed_out\":%s", (unsigned long long)runs, wall, (unsigned long long)viols, (unsigned long long)steps, (unsigned long long)sw, (unsigned long long)pre, (unsigned long long)reg, (unsigned long long)nontriv, (long long)simns, timed_out ? "true" : "false");
  auto mp = [&](const char* n, const std::map<std::string, uint64_t>& m) { std::printf(",\"%s\":{", n); bool f = true; for (auto& k : m) { std::printf("%s%s:%llu", f ? "" : ",", jstr(k.first).c_str(), (unsigned long long)k.second); f = false; } std::printf("}"); };
  mp("probes", P); mp("faults", F); mp("scenarios", per);
  std::printf(",\"teams\":{"); { bool f = true; for (auto& k : teams) { std::printf("%s\"%d\":%llu", f ? "" : ",", k.first, (unsigned long long)k.second); f = false; } }
  std::printf("},\"hashes\":["); { bool f = true; size_t n = 0; for (auto& k : H) { if (n++ > 200000) break; std::printf("%s\"%llx\"", f ? "" : ",", (unsigned long long)k.first); f = false; } }
  std::printf("],\"nt_hashes\":["); { bool f = true; size_t n = 0; for (auto& k : NT) { if (n++ > 200000) break; std::printf("%s\"%llx\"", f ? "" : ",", (unsigned long long)k.first); f = false; } }
  std::printf("],\"states\":["); { bool f = true; size_t n = 0; for (auto& k : ST) { if (n++ > 200000) break; std::printf("%s\"%llx\"", f ? "" : ",", (unsigned long long)k.first); f = false; } }
  std::printf("]}\n");
  std::fflush(stdout);
  return 0;
}

} // namespace sim

// ================================================================ operator new / delete
using namespace sim;
#define PC static_cast<uint32_t>(reinterpret_cast<uintptr_t>(__builtin_return_address(0)) - 1)
static void* op_new(size_t n, size_t al, uint32_t pc) {
  if (g_parent_malloc && !g_active) { void* q = std::malloc(n ? n : 1); if (!q) throw std::bad_alloc(); return q; }
  if (oom_now()) throw std::bad_alloc();
  void* p = h_alloc(n, al, pc);
  if (!p) { throw std::bad_alloc(); }
  return p;
}
static void* op_new_nt(size_t n, size_t al, uint32_t pc) noexcept { if (g_parent_malloc && !g_active) return std::malloc(n ? n : 1); if (oom_now()) return nullptr; return h_alloc(n, al, pc); }
void* operator new(size_t n) { return op_new(n, 16, PC); }
void* operator new[](size_t n) { return op_new(n, 16, PC); }
void* operator new(size_t n, const std::nothrow_t&) noexcept { return op_new_nt(n, 16, PC); }
void* operator new[](size_t n, const std::nothrow_t&) noexcept { return op_new_nt(n, 16, PC); }
void* operator new(size_t n, std::align_val_t a) { return op_new(n, static_cast<size_t>(a), PC); }
void* operator new[](size_t n, std::align_val_t a) { return op_new(n, static_cast<size_t>(a), PC); }
void operator delete(void* p) noexcept { h_free(p, PC); }
void operator delete[](void* p) noexcept { h_free(p, PC); }
void operator delete(void* p, size_t) noexcept { h_free(p, PC); }
void operator delete[](void* p, size_t) noexcept { h_free(p, PC); }
void operator delete(void* p, const std::nothrow_t&) noexcept { h_free(p, PC); }
void operator delete[](void* p, const std::nothrow_t&) noexcept { h_free(p, PC); }
void operator delete(void* p, std::align_val_t) noexcept { h_free(p, PC); }
void operator delete[](void* p, std::align_val_t) noexcept { h_free(p, PC); }
void operator delete(void* p, size_t, std::align_val_t) noexcept { h_free(p, PC); }
void operator delete[](void* p, size_t, std::align_val_t) noexcept { h_free(p, PC); }

// ================================================================ compiler instrumentation
#define RA reinterpret_cast<uintptr_t>(__builtin_return_address(0))
extern "C" {
void __tsan_init() {}
void __tsan_func_entry(void*) { if (g_on && ++g_steps >= g_next) preempt(); }
void __tsan_func_exit() {}
#define RW(n) void __tsan_read##n(void* p) { access(p, n, false, RA); } void __tsan_write##n(void* p) { access(p, n, true, RA); } \
  void __tsan_unaligned_read##n(void* p) { access(p, n, false, RA); } void __tsan_unaligned_write##n(void* p) { access(p, n, true, RA); } \
  void __tsan_volatile_read##n(void* p) { access(p, n, false, RA); } void __tsan_volatile_write##n(void* p) { access(p, n, true, RA); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_read_range(void* p, size_t n) { access(p, n, false, RA); }
void __tsan_write_range(void* p, size_t n) { access(p, n, true, RA); }
void __tsan_vptr_update(void** p, void*) { access(p, 8, true, RA); }
void __tsan_vptr_read(void** p) { access(p, 8, false, RA); }
}
static inline void at_pre(const volatile void* p, size_t n, bool w, int mo, uintptr_t pc) {
  if (!g_on) return;
  if (++g_steps >= g_next) preempt();
  heap_check(reinterpret_cast<uintptr_t>(p), n, w, pc);
  if (g_multi) {
    if (g_races) race_check(reinterpret_cast<uintptr_t>(p), n, w, true, pc);
    if (mo != __ATOMIC_RELAXED) { hb_acquire(const_cast<const void*>(p)); if (w) hb_release(const_cast<const void*>(p)); }
  }
}
#define ATOM(B, T) \
  T __tsan_atomic##B##_load(const volatile T* p, int mo) { at_pre(p, sizeof(T), false, mo, RA); return __atomic_load_n(p, __ATOMIC_SEQ_CST); } \
  void __tsan_atomic##B##_store(volatile T* p, T v, int mo) { at_pre(p, sizeof(T), true, mo, RA); __atomic_store_n(p, v, __ATOMIC_SEQ_CST); } \
  T __tsan_atomic##B##_exchange(volatile T* p, T v, int mo) { at_pre(p, sizeof(T), true, mo, RA); return __atomic_exchange_n(p, v, __ATOMIC_SEQ_CST); } \
  T __tsan_atomic##B##_fetch_add(volatile T* p, T v, int mo) { at_pre(p, sizeof(T), true, mo, RA); return __atomic_fetch_add(p, v, __ATOMIC_SEQ_CST); } \
  T __tsan_atomic##B##_fetch_sub(volatile T* p, T v, int mo) { at_pre(p, sizeof(T), true, mo, RA); return __atomic_fetch_sub(p, v, __ATOMIC_SEQ_CST); } \
  T __tsan_atomic##B##_fetch_and(volatile T* p, T v, int mo) { at_pre(p, sizeof(T), true, mo, RA); return __atomic_fetch_and(p, v, __ATOMIC_SEQ_CST); } \
  T __tsan_atomic##B##_fetch_or(volatile T* p, T v, int mo) { at_pre(p, sizeof(T), true, mo, RA); return __atomic_fetch_or(p, v, __ATOMIC_SEQ_CST); } \
  T __tsan_atomic##B##_fetch_xor(volatile T* p, T v, int mo) { at_pre(p, sizeof(T), true, mo, RA); return __atomic_fetch_xor(p, v, __ATOMIC_SEQ_CST); } \
  T __tsan_atomic##B##_fetch_nand(volatile T* p, T v, int mo) { at_pre(p, sizeof(T), true, mo, RA); return __atomic_fetch_nand(p, v, __ATOMIC_SEQ_CST); } \
  bool __tsan_atomic##B##_compare_exchange_strong(volatile T* p, T* e, T v, int mo, int) { at_pre(p, sizeof(T), true, mo, RA); return __atomic_compare_exchange_n(p, e, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); } \
  bool __tsan_atomic##B##_compare_exchange_weak(volatile T* p, T* e, T v, int mo, int) { at_pre(p, sizeof(T), true, mo, RA); return __atomic_compare_exchange_n(p, e, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); } \
  T __tsan_atomic##B##_compare_exchange_val(volatile T* p, T e, T v, int mo, int) { at_pre(p, sizeof(T), true, mo, RA); __atomic_compare_exchange_n(p, &e, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); return e; }
extern "C" {
ATOM(8, uint8_t) ATOM(16, uint16_t) ATOM(32, uint32_t) ATOM(64, uint64_t)
void __tsan_atomic_thread_fence(int) { if (g_on) sched_point(); }
void __tsan_atomic_signal_fence(int) {}

// range operations reached through -Wl,--wrap
void* __real_memcpy(void*, const void*, size_t); void* __real_memmove(void*, const void*, size_t); void* __real_memset(void*, int, size_t);
void* __wrap_memcpy(void* d, const void* s, size_t n) { if (g_on && n) { access(const_cast<void*>(s), n, false, RA); access(d, n, true, RA); } return __real_memcpy(d, s, n); }
void* __wrap_memmove(void* d, const void* s, size_t n) { if (g_on && n) { access(const_cast<void*>(s), n, false, RA); access(d, n, true, RA); } return __real_memmove(d, s, n); }
void* __wrap_memset(void* d, int c, size_t n) { if (g_on && n) access(d, n, true, RA); return __real_memset(d, c, n); }
// std::string members instantiated in libstdc++: treat as accesses of the string object
#define STR_M "_ZNSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEE"
void __real__ZNSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEE9_M_assignERKS4_(void*, const void*);
void __wrap__ZNSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEE9_M_assignERKS4_(void* d, const void* s) { if (g_on) { access(const_cast<void*>(s), 16, false, RA); access(d, 16, true, RA); } __real__ZNSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEE9_M_assignERKS4_(d, s); }
int __real__ZNKSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEE7compareERKS4_(const void*, const void*);
int __wrap__ZNKSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEE7compareERKS4_(const void* a, const void* b) { if (g_on) { access(const_cast<void*>(a), 16, false, RA); access(const_cast<void*>(b), 16, false, RA); } return __real__ZNKSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEE7compareERKS4_(a, b); }
void* __real__ZNSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEE9_M_appendEPKcm(void*, const char*, size_t);
void* __wrap__ZNSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEE9_M_appendEPKcm(void* d, const char* s, size_t n) { if (g_on) access(d, 16, true, RA); return __real__ZNSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEE9_M_appendEPKcm(d, s, n); }
void* __real__ZNSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEE10_M_replaceEmmPKcm(void*, size_t, size_t, const char*, size_t);
void* __wrap__ZNSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEE10_M_replaceEmmPKcm(void* d, size_t a, size_t b, const char* s, size_t n) { if (g_on) access(d, 16, true, RA); return __real__ZNSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEE10_M_replaceEmmPKcm(d, a, b, s, n); }

// static-local initialisation
int sim_guard_acquire(uint64_t*) __asm__("__cxa_guard_acquire");
void sim_guard_release(uint64_t*) __asm__("__cxa_guard_release");
void sim_guard_abort(uint64_t*) __asm__("__cxa_guard_abort");
int sim_guard_acquire(uint64_t* g) {
  auto* b = reinterpret_cast<uint8_t*>(g);
  if (b[0]) { if (g_active) hb_acquire(g); return 0; }
  if (!g_active) { b[1] = 1; return 1; }
  while (b[1]) { if (b[0]) break; bool o = g_on; g_on = false; block_on(g, "static initialisation"); g_on = o; }
  if (b[0]) { hb_acquire(g); return 0; }
  b[1] = 1; return 1;
}
void sim_guard_release(uint64_t* g) { auto* b = reinterpret_cast<uint8_t*>(g); b[0] = 1; b[1] = 0; if (g_active) { hb_release(g); wake(g); } }
void sim_guard_abort(uint64_t* g) { auto* b = reinterpret_cast<uint8_t*>(g); b[1] = 0; if (g_active) wake(g); }

// threads and locks
static bool recursive(const pthread_mutex_t* m) { return (m->__data.__kind & 3) == PTHREAD_MUTEX_RECURSIVE; }
int pthread_mutex_lock(pthread_mutex_t* m) { if (g_active && !(recursive(m) && relock_key(m))) lock_key(m, "mutex"); return 0; }
int pthread_mutex_trylock(pthread_mutex_t* m) { if (g_active && !(recursive(m) && relock_key(m))) return trylock_key(m) ? 0 : EBUSY; return 0; }
int pthread_mutex_unlock(pthread_mutex_t* m) { if (g_active && !(recursive(m) && reunlock_key(m))) unlock_key(m); return 0; }
int pthread_rwlock_wrlock(pthread_rwlock_t* m) { if (g_active) lock_key(m, "rwlock"); return 0; }
int pthread_rwlock_rdlock(pthread_rwlock_t* m) { if (g_active) lock_key(m, "rwlock"); return 0; }
int pthread_rwlock_unlock(pthread_rwlock_t* m) { if (g_active) unlock_key(m); return 0; }
int pthread_cond_wait(pthread_cond_t* c, pthread_mutex_t* m) { if (!g_active) return 0; bool o = g_on; g_on = false; unlock_key(m); block_on(c, "condition"); lock_key(m, "mutex"); g_on = o; return 0; }
int pthread_cond_signal(pthread_cond_t* c) { if (g_active) wake(c); return 0; }
int pthread_cond_broadcast(pthread_cond_t* c) { if (g_active) wake(c); return 0; }
int pthread_once(pthread_once_t* o, void (*f)()) { auto* i = reinterpret_cast<int*>(o); if (g_active) { lock_key(o, "once"); } if (*i != 2) { f(); *i = 2; } if (g_active) unlock_key(o); return 0; }
struct SimThread { std::function<void()>* b; void* ret; };
static std::unordered_map<unsigned long, SimThread>* g_threads;
int pthread_create(pthread_t* t, const pthread_attr_t*, void* (*f)(void*), void* arg) {
  if (!g_active) { f(arg); *t = 0; return 0; }
  bool o = g_on; g_on = false;
  if (!g_threads) g_threads = new std::unordered_map<unsigned long, SimThread>();
  auto* b = new std::function<void()>([f, arg] { f(arg); });
  int id = spawn(b, cur());
  *t = static_cast<pthread_t>(0x5100 + id); (*g_threads)[*t] = {b, nullptr};
  g_on = o; sched_point(); return 0;
}
int pthread_join(pthread_t t, void** r) { if (r) *r = nullptr; if (!g_active || t < 0x5100) return 0; bool o = g_on; g_on = false; fiber_join(static_cast<int>(t - 0x5100)); g_on = o; return 0; }
int pthread_detach(pthread_t) { return 0; }
int sched_yield() { if (g_active) sched_point(); return 0; }

// clock, pid, terminal
int clock_gettime(clockid_t c, struct timespec* ts) {
  auto& e = sim::env();
  ++e.clock_reads;
  int64_t v;
  if (c == CLOCK_REALTIME) { e.now_ns += e.tick_ns; if (e.jump_every && e.clock_reads % static_cast<uint64_t>(e.jump_every) == 0) { e.now_ns += e.jump_ns; if (g_active) fault_fired("clock_jump"); } v = e.now_ns; }
  else { e.mono_ns += e.tick_ns; v = e.mono_ns; }
  int64_t s = v / 1000000000, n = v % 1000000000; if (n < 0) { n += 1000000000; --s; }
  ts->tv_sec = s; ts->tv_nsec = n; return 0;
}
int gettimeofday(struct timeval* tv, void*) { timespec t; clock_gettime(CLOCK_REALTIME, &t); tv->tv_sec = t.tv_sec; tv->tv_usec = t.tv_nsec / 1000; return 0; }
time_t time(time_t* o) { timespec t; clock_gettime(CLOCK_REALTIME, &t); if (o) *o = t.tv_sec; return t.tv_sec; }
clock_t clock() { auto& e = sim::env(); return (e.mono_ns += e.tick_ns) / 1000; }
pid_t getpid() { return sim::env().pid; }
int ioctl(int fd, unsigned long req, ...) {
  va_list ap; va_start(ap, req); void* p = va_arg(ap, void*); va_end(ap);
  if (req == TIOCGWINSZ) { auto& e = sim::env(); if (e.ioctl_fails) { if (g_active) fault_fired("ioctl_failure"); errno = ENOTTY; return -1; } auto* w = static_cast<winsize*>(p); w->ws_col = static_cast<unsigned short>(e.cols); w->ws_row = static_cast<unsigned short>(e.rows); w->ws_xpixel = w->ws_ypixel = 0; return 0; }
  return static_cast<int>(syscall(SYS_ioctl, fd, req, p));
}
static uint64_t g_rand_state = 1;
void srand(unsigned s) { g_rand_state = s; }
int rand() { g_rand_state = g_rand_state * 6364136223846793005ull + 1442695040888963407ull; return static_cast<int>((g_rand_state >> 33) & 0x7fffffff); }
}
