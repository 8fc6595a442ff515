// Deterministic simulator for a fork-join (OpenMP) C++ library.
//
// One process, one real thread.  OpenMP team members, caller threads and std::mutex users are fibers; a seeded
// scheduler decides at every instrumented memory access, atomic, lock, barrier and loop-dispatch whether to switch.
// Heap, clock, getpid, terminal size, storage (simdisk) and allocation failure are owned by the simulator.
#pragma once
#include <cstddef>
#include <cstdint>
#include <functional>
#include <map>
#include <string>
#include <vector>

namespace sim {

// ---------------------------------------------------------------- PRNG
struct Rng {
  uint64_t s[2];
  explicit Rng(uint64_t seed = 1) { reseed(seed); }
  static uint64_t splitmix(uint64_t& x) { uint64_t z = (x += 0x9e3779b97f4a7c15ull); z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull; z = (z ^ (z >> 27)) * 0x94d049bb133111ebull; return z ^ (z >> 31); }
  void reseed(uint64_t seed) { uint64_t x = seed; s[0] = splitmix(x); s[1] = splitmix(x); }
  uint64_t next() { uint64_t a = s[0], b = s[1], r = a + b; b ^= a; s[0] = ((a << 55) | (a >> 9)) ^ b ^ (b << 14); s[1] = (b << 36) | (b >> 28); return r; }
  uint64_t below(uint64_t n) { return n ? next() % n : 0; }
  double uni() { return static_cast<double>(next() >> 11) * (1.0 / 9007199254740992.0); }
};

// ---------------------------------------------------------------- choices (workload, environment and faults)
// Every choice is recorded; a replay file feeds the recorded values back.  0 is always the simplest value.
uint64_t draw(const char* tag, uint64_t n);                 // 0 .. n-1
inline int64_t draw_in(const char* tag, int64_t lo, int64_t hi) { return lo + static_cast<int64_t>(draw(tag, static_cast<uint64_t>(hi - lo + 1))); }
bool coin(const char* tag, double p);                       // false is the simplest value
uint64_t draw_seed(const char* tag);                        // a 32 bit value for bulk data generation

// ---------------------------------------------------------------- violations
[[noreturn]] void violation(const std::string& kind, const std::string& detail);   // ends the run
inline void check(bool ok, const char* kind, const std::string& detail) { if (!ok) violation(kind, detail); }
#define SIM_CHECK(cond, kind, detail) do { if (!(cond)) ::sim::violation(kind, detail); } while (0)

void probe(const char* name, uint64_t n = 1);               // rare condition reached
void fault_fired(const char* name, uint64_t n = 1);         // an injected fault actually happened
void note(const std::string& line);                         // event log (never draws, never reads a clock)
void mix_hash(const void* p, size_t n);                     // adds to the run's hash
void mix_hash(uint64_t v);
void state_seen(uint64_t h);                                // distinct-state measure
void nontrivial(bool b = true);                             // this run exercised the property under schedule/fault

// ---------------------------------------------------------------- fibers / callers
// Run the given bodies as concurrent simulated threads and wait for all.
void run_threads(const std::vector<std::function<void()>>& bodies);
bool multi();                                               // more than one simulated thread is alive
int fiber_id();
uint64_t steps();
uint64_t switches();
void yield_point();

struct SchedCfg {
  int strategy{0};          // 0 random walk, 1 priorities with change points, 2 no preemption, 3 round robin
  uint32_t mean{50};
  uint32_t changes{3};
  uint32_t horizon{20000};
  bool races{true};
};
void set_sched(const SchedCfg&);
SchedCfg draw_sched();                                      // seeded choice of the strategy for this run
void set_races(bool on);

// ---------------------------------------------------------------- simulated OpenMP environment
struct OmpEnv { int num_threads{1}; bool dyn{false}; int thread_limit{0}; };
OmpEnv& omp_env();
void draw_omp_env(int maxthreads = 8);                      // OMP_NUM_THREADS, OMP_DYNAMIC
int max_team_seen();
uint64_t regions();

// ---------------------------------------------------------------- heap
struct HeapStats { uint64_t live_blocks, live_bytes, total_allocs; };
HeapStats heap();
uint64_t heap_mark();                                       // allocation sequence number
uint64_t heap_live_since(uint64_t mark, std::string* where = nullptr);   // blocks allocated after mark and still live
void arm_alloc_fault(uint64_t nth, uint64_t repeat = 1);    // fail the nth allocation from now (1-based)
bool disarm_alloc_fault();                                  // true if it fired
uint64_t allocs_since_arm();
uint64_t alloc_fault_fired();

// ---------------------------------------------------------------- clock, terminal, pid
struct Env { int64_t now_ns; int64_t mono_ns; int64_t tick_ns; int cols; int rows; bool ioctl_fails; int pid; int jump_every; int64_t jump_ns; uint64_t clock_reads; };
Env& env();

// ---------------------------------------------------------------- run control
struct RunResult {
  bool violated{false};
  std::string kind, detail;
  uint64_t hash{0};
};
// name of the phase shown when the run dies by a signal or std::terminate
struct Phase { const char* old; explicit Phase(const char* n); ~Phase(); };

// expectation for std::terminate / signals is always a violation
using Scenario = std::function<void()>;
struct ScenarioDef { std::string property, name; Scenario body; double weight; std::function<void()> warm; };
std::vector<ScenarioDef>& scenarios();
struct Reg { Reg(const char* prop, const char* name, Scenario f, double weight = 1.0, std::function<void()> warm = nullptr) { scenarios().push_back({prop, name, std::move(f), weight, std::move(warm)}); } };

int harness_main(int argc, char** argv);

// scoped: instrumentation hooks do nothing (harness-side computation inside a run)
struct Quiet { bool old; Quiet(); ~Quiet(); };
struct Loud { bool old; Loud(); ~Loud(); };                 // scoped: instrumentation on again inside a Quiet scope

} // namespace sim
