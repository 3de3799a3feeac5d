// Scenario-side interface of the model checker. Scenario code is compiled with
// -fsanitize=thread instrumentation and linked against engine/runtime.cpp.
#pragma once
#include <cstddef>
#include <cstdint>
#include <cstdio>
#include <string>

namespace mc {

struct Opts {
  int preempt = 3;    // preemption bound of the quick tier (<0: unbounded)
  int preempt_max = -1; // preemption bound of the thorough tier (<0: unbounded)
  int env = 0;        // bound on environment deviations (spurious wake-ups, early time-outs, weak CAS failure)
  int env_max = -1;   // same, thorough tier (-1: as env)
  int stale = 0;      // 1: loads may return older coherent values (counts as env deviation)
  bool leaks = true;  // heap must be balanced at the end
  bool big = false;   // one thread, many objects: larger limits
};

using Fn = void (*)();
void reg(const char *prop, const char *name, Fn fn, Opts o);

// exhaustive data choice 0..n-1
int choose(int n);
// environment deviation: 0 is the default answer, others cost one unit of Opts::env
int deviate(int n);
[[noreturn]] void fail(const char *fmt, ...) __attribute__((format(printf, 1, 2)));
[[noreturn]] void fail_at(const char *file, int line, const char *cond, const char *fmt, ...)
    __attribute__((format(printf, 4, 5)));
// records a named outcome of this execution (for coverage reporting)
void outcome(const char *fmt, ...) __attribute__((format(printf, 1, 2)));
int tid();
bool thorough();
// visible no-op: a scheduling point
void yield_point();
// live tracked heap blocks / bytes of the current execution
size_t live_blocks();
// arm failure of the k-th (1-based) operator new of this thread from now on; 0 disarms.
void fail_alloc_at(long k);
long allocs_since_arm();
// arm failure of the k-th pthread_create from now on; 0 disarms
void fail_thread_at(int k);
// virtual clock, nanoseconds
long long now_ns();
// discard this execution: not a valid case (does not count as nontrivial)
[[noreturn]] void discard();

// visible accesses without any synchronisation effect (ghost state)
long ghost_load(const long *p);
void ghost_store(long *p, long v);
long ghost_add(long *p, long v);
void ghost_cond(long *p); // *p is incremented whenever the calling thread blocks on a condition variable
void *ghost_alloc(size_t n); // zeroed, untracked, per execution

// Ghost variable: order of its accesses is explored, but creates no
// happens-before edges, so it cannot hide data races of the code under test.
class ghost {
public:
  explicit ghost(long v = 0) : p_(static_cast<long *>(ghost_alloc(sizeof(long)))) { *raw() = v; }
  ghost(const ghost &o) = default;
  long get() const { return ghost_load(p_); }
  void set(long v) const { ghost_store(p_, v); }
  long add(long v = 1) const { return ghost_add(p_, v); } // returns old value
  long peek() const { return *raw(); }                    // not a scheduling point; for end-of-run checks
  void count_cond_waits() const { ghost_cond(raw()); } // of the calling thread, from now on
  void poke(long v) const { *raw() = v; }
  long bump(long v = 1) const { long o = *raw(); *raw() = o + v; return o; } // not a scheduling point
private:
  __attribute__((no_sanitize("thread"))) long *raw() const { return p_; }
  long *p_;
};

} // namespace mc

#define MC_STR2(x) #x
#define MC_STR(x) MC_STR2(x)
#define CHECK(cond, ...)                                                                                               \
  do {                                                                                                                 \
    if (!(cond))                                                                                                       \
      ::mc::fail_at(__FILE__, __LINE__, #cond, "" __VA_ARGS__);                                                        \
  } while (0)
#define MC_CAT2(a, b) a##b
#define MC_CAT(a, b) MC_CAT2(a, b)
// SCENARIO(C01, name, opts...) { body }
#define SCENARIO(prop, name, ...)                                                                                      \
  static void mc_##prop##_##name();                                                                                    \
  namespace {                                                                                                          \
  struct mc_reg_##prop##_##name {                                                                                      \
    mc_reg_##prop##_##name() {                                                                                         \
      ::mc::Opts o;                                                                                                    \
      (void)o;                                                                                                         \
      __VA_ARGS__;                                                                                                     \
      ::mc::reg(#prop, #prop "." #name, &mc_##prop##_##name, o);                                                       \
    }                                                                                                                  \
  } mc_inst_##prop##_##name;                                                                                           \
  }                                                                                                                    \
  static void mc_##prop##_##name()
