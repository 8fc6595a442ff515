// internals shared between simrt.cpp and simomp.cpp
#pragma once
#include "simrt.hpp"
#include <cstring>
#include <unordered_map>
namespace sim {
constexpr int MAXF = 64;
struct VC { uint32_t c[MAXF]; VC() { std::memset(c, 0, sizeof c); } void join(const VC& o) { for (int i = 0; i < MAXF; ++i) if (o.c[i] > c[i]) c[i] = o.c[i]; } };

struct Team;
struct OmpCtx { Team* team{nullptr}; int tid{0}; int level{0}; int active_level{0}; int icv_threads{1}; uint32_t ws{0}; uint32_t single{0}; bool dyn{false}; };

enum class FS : uint8_t { Free, Runnable, Blocked, Done };
struct Fiber {
  int id{0};
  FS st{FS::Free};
  void* sp{nullptr};
  char* stack{nullptr};
  char* low{nullptr};          // deepest stack pointer at a switch since the stack's shadow was last cleared
  size_t stack_size{0};
  std::function<void()>* body{nullptr};
  const void* wait_key{nullptr};
  const char* wait_what{""};
  VC vc;
  void* eh[2]{nullptr, nullptr};
  OmpCtx omp;
  uint64_t prio{0};
  int joined_by{-1};
  uint64_t start_seq{0};
};

extern bool g_active;      // inside a simulated run
extern bool g_on;          // hooks enabled
Fiber* cur();
int spawn(std::function<void()>* body, Fiber* inherit);   // returns fiber id, runnable
void block_on(const void* key, const char* what);         // until wake(key); caller re-checks its condition
void wake(const void* key);
void fiber_join(int id);                                  // waits until done, joins clocks, frees the slot
bool fiber_done(int id);
void sched_point();                                       // may switch
void hb_release(const void* key);
void hb_acquire(const void* key);
void lock_key(const void* key, const char* what);
bool relock_key(const void* k);
bool reunlock_key(const void* k);
bool trylock_key(const void* key);
void unlock_key(const void* key);
void count_region(int n);
uint64_t env_draw(const char* tag, uint64_t n);           // environment decisions taken inside the run
}
