// Shared building blocks of the scenarios. Only the public API of the library is used.
#pragma once
#include "../engine/mc.h"

#include <algorithm>
#include <array>
#include <atomic>
#include <chrono>
#include <condition_variable>
#include <cstddef>
#include <cstdint>
#include <cstring>
#include <deque>
#include <exception>
#include <functional>
#include <future>
#include <initializer_list>
#include <iterator>
#include <list>
#include <map>
#include <memory>
#include <mutex>
#include <new>
#include <stdexcept>
#include <string>
#include <system_error>
#include <thread>
#include <tuple>
#include <type_traits>
#include <utility>
#include <vector>

#include <portable_concurrency/execution>
#include <portable_concurrency/functional>
#include <portable_concurrency/future>
#include <portable_concurrency/latch>
#include <portable_concurrency/thread_pool>
#include <portable_concurrency/timed_waiter>

namespace pc = portable_concurrency;

// ---------------------------------------------------------------- counters outside of the model
// Plain memory of the checker: accesses are neither scheduling points nor checked for races.
struct counters {
  long v[64];
};
inline counters &ctr() {
  static counters *p;
  if (!p)
    p = static_cast<counters *>(mc::ghost_alloc(sizeof(counters)));
  return *p;
}
enum { C_LIVE = 60, C_COPIES = 61, C_ALLOCS = 62, C_BYTES = 63 };

// Call first in every scenario that uses counters or Tracked from several threads.
inline void init() { (void)ctr(); }

// ---------------------------------------------------------------- exceptions
// Not derived from std::exception: the library has to carry anything that can be thrown.
struct test_error {
  int id;
  explicit test_error(int i) : id(i) {}
};
// Derived from std::exception in two steps: catching a base and rethrowing a copy loses the id.
struct std_error : std::runtime_error {
  int id;
  explicit std_error(int i) : std::runtime_error("std_error"), id(i) {}
};
inline std::exception_ptr err(int i) { return std::make_exception_ptr(test_error{i}); }

// ---------------------------------------------------------------- value with lifetime accounting
class Tracked {
public:
  explicit Tracked(int x) : magic_(ALIVE), v_(x), data_(new int(x)) { ctr().v[C_LIVE]++; }
  Tracked(const Tracked &o) : magic_(ALIVE), v_(o.get()), data_(o.data_ ? new int(*o.data_) : nullptr) {
    ctr().v[C_LIVE]++;
    ctr().v[C_COPIES]++;
  }
  Tracked(Tracked &&o) noexcept : magic_(ALIVE), v_(o.raw()), data_(std::move(o.data_)) {
    ctr().v[C_LIVE]++;
    o.v_ = -1;
  }
  Tracked &operator=(const Tracked &o) {
    v_ = o.get();
    data_.reset(new int(*o.data_));
    return *this;
  }
  Tracked &operator=(Tracked &&o) noexcept {
    if (this != &o) {
      v_ = o.raw();
      data_ = std::move(o.data_);
      o.v_ = -1;
    }
    return *this;
  }
  ~Tracked() {
    if (magic_ != ALIVE)
      mc::fail("destruction of an object that is not alive");
    magic_ = DEAD;
    ctr().v[C_LIVE]--;
  }
  int get() const {
    if (magic_ != ALIVE)
      mc::fail("use of an object that is not alive");
    if (!data_ || v_ != *data_)
      mc::fail("use of a moved-from or torn object");
    return v_;
  }
  bool moved_from() const { return !data_; }

private:
  int raw() const {
    if (magic_ != ALIVE)
      mc::fail("move from an object that is not alive");
    return v_;
  }
  static constexpr unsigned ALIVE = 0xA11FE, DEAD = 0xDEAD;
  unsigned magic_;
  int v_;
  std::unique_ptr<int> data_;
};
inline long live_tracked() { return ctr().v[C_LIVE]; }
#define NO_TRACKED_LEFT() CHECK(live_tracked() == 0, "(%ld objects alive)", live_tracked())

// ---------------------------------------------------------------- result kinds
// kind<T>: how to make the i-th value of a result type and how to recognise it.
template <typename T> struct kind;
template <> struct kind<int> {
  static constexpr const char *name = "int";
  static int make(int i) { return 1000 + i; }
  static int id(const int &v) { return v - 1000; }
};
template <> struct kind<std::string> {
  static constexpr const char *name = "string";
  static std::string make(int i) { return std::string(40, static_cast<char>('a' + i)); }
  static int id(const std::string &v) {
    for (char c : v)
      if (c != v[0])
        return -1;
    return v.size() == 40 ? v[0] - 'a' : -2;
  }
};
using uptr = std::unique_ptr<int>;
template <> struct kind<uptr> {
  static constexpr const char *name = "unique_ptr";
  static uptr make(int i) { return uptr(new int(i)); }
  static int id(const uptr &v) { return v ? *v : -1; }
};
template <> struct kind<Tracked> {
  static constexpr const char *name = "tracked";
  static Tracked make(int i) { return Tracked(i); }
  static int id(const Tracked &v) { return v.get(); }
};
inline int *ref_pool() {
  static int v[8];
  return v;
}
template <> struct kind<int &> {
  static constexpr const char *name = "int&";
  static int &make(int i) {
    ref_pool()[i] = 500 + i;
    return ref_pool()[i];
  }
  static int id(int &v) {
    int i = static_cast<int>(&v - ref_pool());
    return v == 500 + i ? i : -1;
  }
};
template <> struct kind<const int &> {
  static constexpr const char *name = "const int&";
  static const int &make(int i) { return kind<int &>::make(i); }
  static int id(const int &v) { return kind<int &>::id(const_cast<int &>(v)); }
};
template <> struct kind<void> {
  static constexpr const char *name = "void";
  static void make(int) {}
};

// A type that asks for care: over-aligned, not default constructible, not assignable, and T{x} is not a copy of x.
struct alignas(64) Picky {
  explicit Picky(int v) : v_(v) { at(); }
  Picky(std::initializer_list<Picky>) { mc::fail("value created by list initialisation instead of being copied or moved"); }
  Picky(const Picky &o) : v_(o.get()) { at(); }
  Picky(Picky &&o) noexcept : v_(o.get()) {
    at();
    o.v_ = -1;
  }
  Picky &operator=(const Picky &) = delete;
  ~Picky() { at(); }
  int get() const {
    at();
    if (v_ < 0)
      mc::fail("use of a moved-from object");
    return v_;
  }

private:
  void at() const {
    if (reinterpret_cast<uintptr_t>(this) % 64)
      mc::fail("over-aligned object at a misaligned address");
  }
  int v_;
};
template <> struct kind<Picky> {
  static constexpr const char *name = "picky";
  static Picky make(int i) { return Picky(i); }
  static int id(const Picky &v) { return v.get(); }
};

// Outcomes: >= 0 value id; -100-n exception test_error(n); -1000 broken promise; -1001 no_state; ...
constexpr int EXC = -100, BROKEN = -1000, NO_STATE = -1001, SATISFIED = -1002, RETRIEVED = -1003, OTHER = -1004, BADALLOC = -1005, BADCALL = -1006;

inline int classify(std::exception_ptr p) {
  try {
    std::rethrow_exception(p);
  } catch (const test_error &e) {
    return EXC - e.id;
  } catch (const std_error &e) {
    return EXC - 50 - e.id;
  } catch (const std::future_error &e) {
    if (e.code() == std::future_errc::broken_promise)
      return BROKEN;
    if (e.code() == std::future_errc::no_state)
      return NO_STATE;
    if (e.code() == std::future_errc::promise_already_satisfied)
      return SATISFIED;
    if (e.code() == std::future_errc::future_already_retrieved)
      return RETRIEVED;
    return OTHER;
  } catch (const std::bad_alloc &) {
    return BADALLOC;
  } catch (const std::bad_function_call &) {
    return BADCALL;
  } catch (...) {
    return OTHER;
  }
}
// runs f, which returns an int, and maps exceptions to outcomes
template <typename F> int outcome_of(F &&f) {
  try {
    return f();
  } catch (...) {
    return classify(std::current_exception());
  }
}

// get() of any future kind as an outcome; void completes as id 0
template <typename T> struct getter {
  template <typename Fut> static int get(Fut &f) {
    return outcome_of([&] { return kind<T>::id(f.get()); });
  }
};
template <> struct getter<uptr> {
  static int get(pc::future<uptr> &f) {
    return outcome_of([&] {
      uptr p = f.get();
      return kind<uptr>::id(p);
    });
  }
  static int get(const pc::shared_future<uptr> &f) {
    return outcome_of([&] { return kind<uptr>::id(f.get()); });
  }
};
template <> struct getter<Tracked> {
  static int get(pc::future<Tracked> &f) {
    return outcome_of([&] {
      Tracked t = f.get();
      return t.get();
    });
  }
  static int get(const pc::shared_future<Tracked> &f) {
    return outcome_of([&] { return f.get().get(); });
  }
};
template <> struct getter<void> {
  template <typename Fut> static int get(Fut &f) {
    return outcome_of([&] {
      f.get();
      return 0;
    });
  }
};
template <typename T> int get_outcome(pc::future<T> &f) { return getter<T>::get(f); }
template <typename T> int get_outcome(const pc::shared_future<T> &f) { return getter<T>::get(f); }
template <typename T> int get_outcome(pc::future<T> &&f) { return getter<T>::get(f); }

// supplies the i-th value (void: i must be 0)
template <typename T> struct setter {
  static void set(pc::promise<T> &p, int i) { p.set_value(kind<T>::make(i)); }
};
template <> struct setter<void> {
  static void set(pc::promise<void> &p, int) { p.set_value(); }
};
template <typename T> void set_id(pc::promise<T> &p, int i) { setter<T>::set(p, i); }
// value id as delivered (void results carry no id)
template <typename T> int vid(int i) { return std::is_void<T>::value ? 0 : i; }

// ---------------------------------------------------------------- executors
// Which executor runs the current code, per thread (0: none).
inline long &cur_exec() { return ctr().v[40 + mc::tid()]; }

// Manual queue, used by one thread or under external ordering.
struct Queue {
  std::deque<pc::unique_function<void()>> q;
  int id;
  int posts = 0;
  explicit Queue(int i = 1) : id(i) {}
  bool run_one() {
    if (q.empty())
      return false;
    pc::unique_function<void()> f = std::move(q.front());
    q.pop_front();
    long o = cur_exec();
    cur_exec() = id;
    f();
    cur_exec() = o;
    return true;
  }
  int run_all() {
    int n = 0;
    while (run_one())
      n++;
    return n;
  }
};
struct qexec {
  Queue *q;
};
inline void post(qexec e, pc::unique_function<void()> f) {
  e.q->posts++;
  e.q->q.push_back(std::move(f));
}

// Queue that may be posted to from any thread.
struct MtQueue {
  std::mutex m;
  std::deque<pc::unique_function<void()>> q;
  int posts = 0;
  int id;
  explicit MtQueue(int i = 2) : id(i) {}
  int run_all() {
    int n = 0;
    for (;;) {
      pc::unique_function<void()> f;
      {
        std::lock_guard<std::mutex> l(m);
        if (q.empty())
          return n;
        f = std::move(q.front());
        q.pop_front();
      }
      long o = cur_exec();
      cur_exec() = id;
      f();
      cur_exec() = o;
      n++;
    }
  }
};
struct mtexec {
  MtQueue *q;
};
inline void post(mtexec e, pc::unique_function<void()> f) {
  std::lock_guard<std::mutex> l(e.q->m);
  e.q->posts++;
  e.q->q.push_back(std::move(f));
}

// Runs the task at once, marking the executor.
struct inl {
  int id;
};
template <typename F> void post(inl e, F &&f) {
  ctr().v[30 + e.id]++;
  long o = cur_exec();
  cur_exec() = e.id;
  std::forward<F>(f)();
  cur_exec() = o;
}

// Drops every task.
struct dropper {};
template <typename F> void post(dropper, F &&f) {
  std::decay_t<F> g(std::forward<F>(f));
  (void)g;
}

namespace portable_concurrency {
template <> struct is_executor<qexec> : std::true_type {};
template <> struct is_executor<mtexec> : std::true_type {};
template <> struct is_executor<inl> : std::true_type {};
template <> struct is_executor<dropper> : std::true_type {};
} // namespace portable_concurrency

// joins in the destructor so that failing paths stay simple
class thr {
public:
  thr() = default;
  template <typename F> explicit thr(F &&f) : t_(std::forward<F>(f)) {}
  thr(thr &&) = default;
  thr &operator=(thr &&o) {
    if (t_.joinable())
      t_.join();
    t_ = std::move(o.t_);
    return *this;
  }
  ~thr() {
    if (t_.joinable())
      t_.join();
  }
  void join() { t_.join(); }

private:
  std::thread t_;
};

// ---------------------------------------------------------------- checking allocator
struct Arena {
  int id;
  long blocks = 0, bytes = 0, total = 0;
  long fail_at = 0; // 1-based index of the allocation that throws
};
template <typename T> struct arena_alloc {
  using value_type = T;
  Arena *a;
  explicit arena_alloc(Arena *x) : a(x) {}
  template <typename U> arena_alloc(const arena_alloc<U> &o) : a(o.a) {}
  T *allocate(size_t n);
  void deallocate(T *p, size_t n);
  template <typename U> bool operator==(const arena_alloc<U> &o) const { return a == o.a; }
  template <typename U> bool operator!=(const arena_alloc<U> &o) const { return a != o.a; }
};
// bookkeeping of the arena is the checker's own: it lives in ghost memory
struct arena_hdr {
  Arena *a;
  size_t n;
};
template <typename T> T *arena_alloc<T>::allocate(size_t n) {
  if (a->fail_at && a->total + 1 == a->fail_at) {
    a->total++;
    throw std::bad_alloc();
  }
  a->total++;
  a->blocks++;
  a->bytes += static_cast<long>(n * sizeof(T));
  char *p = static_cast<char *>(::operator new(n * sizeof(T) + 64, std::align_val_t(64)));
  auto *h = new (p) arena_hdr{a, n * sizeof(T)};
  (void)h;
  return reinterpret_cast<T *>(p + 64);
}
template <typename T> void arena_alloc<T>::deallocate(T *q, size_t n) {
  char *p = reinterpret_cast<char *>(q) - 64;
  auto *h = reinterpret_cast<arena_hdr *>(p);
  if (h->a != a)
    mc::fail("block returned to another arena");
  if (h->n != n * sizeof(T))
    mc::fail("block of %zu bytes returned as %zu bytes", h->n, n * sizeof(T));
  a->blocks--;
  a->bytes -= static_cast<long>(h->n);
  h->a = nullptr;
  ::operator delete(p, std::align_val_t(64));
}
inline Arena *make_arena(int id) {
  auto *a = static_cast<Arena *>(mc::ghost_alloc(sizeof(Arena)));
  new (a) Arena();
  a->id = id;
  return a;
}
