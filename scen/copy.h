// Functions, arguments and executors are handed over when an operation is called: an lvalue is copied and left alone, and
// what happens to the original afterwards does not matter.
#pragma once
#include "common.h"

struct Orig {
  Tracked id;
  Orig() : id(5) {}
};
// can only be moved
struct Sole {
  uptr p;
  struct {
    uptr *p;
    int get() const { return **p; }
  } id;
  Sole() : p(new int(5)), id{&p} {}
  Sole(Sole &&r) noexcept : p(std::move(r.p)), id{&p} {}
  Sole &operator=(Sole &&) = delete;
};
// calls f with *o as lvalue, const lvalue or rvalue, then changes and destroys the original
template <typename T, typename F> void hand_over(F &&f) {
  const int how = mc::choose(3);
  std::unique_ptr<T> o(new T);
  if (how == 0)
    f(*o);
  else if (how == 1)
    f(const_cast<const T &>(*o));
  else
    f(std::move(*o));
  if (how != 2) {
    CHECK(!o->id.moved_from(), "the caller's object was moved from");
    CHECK(o->id.get() == 5);
  }
  o->id = Tracked(6);
}
inline Queue *&the_queue() {
  static Queue *q;
  return q;
}
template <typename T> struct hand {
  template <typename F> static void over(F &&f) { hand_over<T>(std::forward<F>(f)); }
};
template <template <typename> class T> struct hand<T<Sole>> {
  template <typename F> static void over(F &&f) { f(T<Sole>{}); }
};
struct own_exec {
  Queue *q = the_queue();
  Tracked id{5};
};
inline void post(const own_exec &e, pc::unique_function<void()> f) {
  CHECK(e.id.get() == 5, "not the executor that was given");
  post(qexec{e.q}, std::move(f));
}
namespace portable_concurrency {
template <> struct is_executor<own_exec> : std::true_type {};
} // namespace portable_concurrency

template <typename F> void hand_over_exec(F &&f) { hand_over<own_exec>(std::forward<F>(f)); }
#define FWD(x) std::forward<decltype(x)>(x)
