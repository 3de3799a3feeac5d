// All programs of a few operations on one result and on what is derived from it, run by a consumer while another
// thread supplies that result. The oracle follows every derived future and every function given to the library.
// Used by several properties.
#pragma once
#include "common.h"

namespace prog {
struct Cb { // a function given to the library
  mc::ghost runs;
  bool on_value; // invoked only if the source has a value
};
struct Derived {
  pc::future<int> r;
  int value, error; // what r delivers by the outcome of the source; error == 0: the same error
  std::vector<int> cbs;
};
using inplace = std::decay_t<decltype(pc::inplace_executor)>;
template <typename E> struct State {
  E exec;
  int how = 0;
  pc::future<Tracked> f;
  std::vector<pc::shared_future<Tracked>> s;
  std::vector<Derived> d;
  std::vector<Cb> cbs;
  std::vector<int> notes;
  std::vector<pc::timed_waiter> w;
  std::vector<pc::promise<int>> others; // other inputs of when_any, never supplied
  bool kept = false; // detached, or known to be supplied
  bool lossy = false; // the executor may drop tasks
  bool may_block = true; // somebody is going to supply the result
  bool combined = false; // given to when_all or when_any
  bool hurt = false; // a failure may have become the result of a derived future
  bool loose = false; // the future of a combination was dropped, which may keep its inputs until they are ready
};
// Fault injection: the k-th allocation of the library within the guarded calls fails (0: none). User functions
// called meanwhile do not count.
struct Faults {
  long left = 0;
  bool in = false, fired = false;
};
inline Faults &faults() {
  static Faults f;
  return f;
}
struct Guard { // around a library call
  const bool on;
  Guard() : on(faults().left > 0) {
    if (on) {
      faults().in = true;
      mc::fail_alloc_at(faults().left);
    }
  }
  ~Guard() {
    if (on)
      leave();
  }
  static void leave() {
    Faults &f = faults();
    f.left -= mc::allocs_since_arm();
    if (f.left <= 0)
      f.fired = true;
    f.in = false;
    mc::fail_alloc_at(0);
  }
};
struct Pause { // around user code
  const bool on;
  Pause() : on(faults().in) {
    if (on)
      Guard::leave();
  }
  ~Pause() {
    if (on) {
      faults().in = true;
      mc::fail_alloc_at(faults().left > 0 ? faults().left : 0);
    }
  }
};
// without executor for the in-place one
template <typename H, typename E, typename F> auto then_(H &h, E e, F f) {
  Guard g;
  if constexpr (std::is_same<E, inplace>::value)
    return h.then(std::move(f));
  else
    return h.then(e, std::move(f));
}
template <typename H, typename E, typename F> auto next_(H &h, E e, F f) {
  Guard g;
  if constexpr (std::is_same<E, inplace>::value)
    return h.next(std::move(f));
  else
    return h.next(e, std::move(f));
}
template <typename H, typename E, typename F> void notify_(H &h, E e, F f) {
  Guard g;
  if constexpr (std::is_same<E, inplace>::value)
    h.notify(std::move(f));
  else
    h.notify(e, std::move(f));
}
inline int source_outcome(int how) { return how == 0 ? 1 : how == 1 ? EXC - 2 : BROKEN; }
inline void supply(pc::promise<Tracked> p, int how) {
  if (how == 0)
    p.set_value(Tracked(1));
  else if (how == 1)
    p.set_exception(err(2));
}
template <typename E> mc::ghost add(State<E> &x, bool on_value) {
  x.cbs.push_back(Cb{mc::ghost(), on_value});
  return x.cbs.back().runs;
}
template <typename E> void add_derived(State<E> &x, pc::future<int> r, int value, int error, int ncbs) {
  Derived d{std::move(r), value, error, {}};
  for (int i = 0; i < ncbs; i++)
    d.cbs.push_back(static_cast<int>(x.cbs.size()) - 1 - i);
  x.d.push_back(std::move(d));
}
template <typename E> void ran(State<E> &x, int c) {
  const long want = x.cbs[c].on_value && x.how != 0 ? 0 : 1;
  CHECK(x.cbs[c].runs.peek() == want || (x.lossy && !x.cbs[c].runs.peek()), "function %d ran %ld times", c, x.cbs[c].runs.peek());
}
template <typename E> void finished(State<E> &x, Derived &d) {
  const int o = outcome_of([&] { return d.r.get(); });
  const int want = x.how == 0 ? d.value : d.error ? d.error : source_outcome(x.how);
  if ((x.lossy && o == BROKEN) || (x.hurt && o == BADALLOC))
    return;
  CHECK(o == want, "derived result %d, expected %d", o, want);
  for (int c : d.cbs)
    ran(x, c);
}
#if defined(__cpp_impl_coroutine)
template <typename Fut> pc::future<int> awaiting(Fut h, mc::ghost c, Tracked t) {
  int o = 0;
  try {
    const Tracked &v = co_await h;
    o = v.get();
  } catch (...) {
    c.bump();
    CHECK(t.get() == 7);
    throw;
  }
  c.bump();
  CHECK(t.get() == 7);
  co_return o + 70;
}
inline pc::future<int> awaiting_derived(pc::future<int> h, mc::ghost c, Tracked t) {
  const int o = co_await h;
  c.bump();
  CHECK(t.get() == 7);
  co_return o + 200;
}
#endif
enum { NOTIFY, THEN, NEXT, ITHEN, UNWRAP, ALL, ANY, DETACH, DROP, GET, READY, TIMED,
#if defined(__cpp_impl_coroutine)
       AWAIT,
#endif
       N_BOTH };
template <typename E, typename Fut> void both(State<E> &x, Fut &h, int op) {
  constexpr bool U = std::is_same<Fut, pc::future<Tracked>>::value;
  using Arg = std::conditional_t<U, Tracked, const Tracked &>;
  bool consumed = U;
  switch (op) {
  case NOTIFY: {
    mc::ghost c = add(x, false);
    notify_(h, x.exec, [c, t = std::make_unique<Tracked>(7)] {
      Pause u;
      CHECK(t->get() == 7);
      c.bump();
    });
    x.notes.push_back(static_cast<int>(x.cbs.size()) - 1);
    consumed = false;
    break;
  }
  case THEN: {
    mc::ghost c = add(x, false);
    add_derived(x, then_(h, x.exec, [c, t = Tracked(7)](Fut v) {
      Pause u;
      CHECK(t.get() == 7 && v.is_ready());
      c.bump();
      const int o = get_outcome(v);
      return o >= 0 ? o + 10 : 99;
    }), 11, 99, 1);
    break;
  }
  case NEXT: {
    mc::ghost c = add(x, true);
    add_derived(x, next_(h, x.exec, [c, t = Tracked(7)](Arg v) {
      Pause u;
      CHECK(t.get() == 7);
      c.bump();
      return v.get() + 20;
    }), 21, 0, 1);
    break;
  }
  case ITHEN: {
    mc::ghost c = add(x, false);
    add_derived(x, then_(h, x.exec, [c, t = Tracked(7)](pc::promise<int> p, Fut v) {
      Pause u;
      CHECK(t.get() == 7 && v.is_ready());
      c.bump();
      const int o = get_outcome(v);
      if (o >= 0)
        p.set_value(o + 30);
      else if (o != BROKEN)
        p.set_exception(err(2));
    }), 31, 0, 1);
    if (!U)
      h = Fut();
    break;
  }
  case UNWRAP: {
    mc::ghost in = add(x, true);
    mc::ghost c = add(x, false);
    add_derived(x, then_(h, x.exec, [c, in, t = Tracked(7)](Fut v) {
      Pause u;
      CHECK(t.get() == 7);
      c.bump();
      return v.next([in, t](Arg a) {
        CHECK(t.get() == 7);
        in.bump();
        return a.get() + 40;
      });
    }), 41, 0, 2);
    break;
  }
  case ALL: {
    mc::ghost c = add(x, false);
    using Seq = std::tuple<Fut, pc::future<int>>;
    pc::future<int> three = pc::make_ready_future(3);
    auto all = [&] {
      Guard g;
      return pc::when_all(Fut(std::move(h)), std::move(three));
    }();
    add_derived(x, next_(all, x.exec, [c, t = Tracked(7)](Seq v) {
      Pause u;
      CHECK(t.get() == 7);
      c.bump();
      const int o = get_outcome(std::get<0>(v));
      return o >= 0 ? o + 50 + std::get<1>(v).get() : 98;
    }), 54, 98, 1);
    x.kept = true; // a combination keeps its inputs
    x.combined = true;
    consumed = true;
    break;
  }
  case ANY: {
    mc::ghost c = add(x, false);
    using Seq = pc::when_any_result<std::tuple<Fut, pc::future<int>>>;
    auto other = pc::make_promise<int>();
    x.others.push_back(std::move(other.first));
    auto any = [&] {
      Guard g;
      return pc::when_any(Fut(std::move(h)), std::move(other.second));
    }();
    add_derived(x, next_(any, x.exec, [c, t = Tracked(7)](Seq v) {
      Pause u;
      CHECK(t.get() == 7 && v.index == 0);
      c.bump();
      const int o = get_outcome(std::get<0>(v.futures));
      return o >= 0 ? o + 60 : 97;
    }), 61, 97, 1);
    x.kept = true;
    x.combined = true;
    consumed = true;
    break;
  }
#if defined(__cpp_impl_coroutine)
  case AWAIT: {
    mc::ghost c = add(x, false);
    add_derived(x, awaiting(Fut(std::move(h)), c, Tracked(7)), 71, 0, 1);
    x.kept = true; // by the coroutine
    consumed = true;
    break;
  }
#endif
  case DETACH: {
    Guard g;
    h = h.detach();
  }
    x.kept = true;
    consumed = false;
    break;
  case DROP:
    h = Fut();
    consumed = true;
    break;
  case GET: {
    const int o = get_outcome(h);
    CHECK(o == source_outcome(x.how), "(%d)", o);
    x.kept = true;
    break;
  }
  case READY: {
    const bool a = h.is_ready();
    if (a) {
      const int o = get_outcome(h);
      CHECK(o == source_outcome(x.how), "(%d)", o);
      x.kept = true;
    } else
      consumed = false;
    break;
  }
  case TIMED: {
    pc::timed_waiter w = [&] {
      Guard g;
      return pc::timed_waiter(h);
    }();
    if (w.wait_for(std::chrono::seconds(0)) == pc::future_status::ready)
      CHECK(h.is_ready());
    x.w.push_back(std::move(w));
    consumed = false;
    break;
  }
  }
  if (op != ITHEN || U)
    CHECK(h.valid() == !consumed, "operation %d", op);
}
enum { SHARE = N_BOTH, COPY, CHAIN, DROP_D, GET_D,
#if defined(__cpp_impl_coroutine)
       AWAIT_D,
#endif
       N_OPS };
template <typename E> void step(State<E> &x) {
  int menu[N_OPS], n = 0;
  const bool src = x.f.valid() || !x.s.empty();
  if (src)
    for (int i = 0; i < N_BOTH; i++)
      if (i != GET || x.may_block)
        menu[n++] = i;
  if (x.f.valid())
    menu[n++] = SHARE;
  else if (!x.s.empty())
    menu[n++] = COPY;
  if (!x.d.empty()) {
    menu[n++] = CHAIN;
#if defined(__cpp_impl_coroutine)
    menu[n++] = AWAIT_D;
#endif
    menu[n++] = DROP_D;
    if (x.may_block)
      menu[n++] = GET_D;
  }
  if (!n)
    mc::discard();
  const int op = menu[mc::choose(n)];
  switch (op) {
  case SHARE:
    x.s.push_back(x.f.share());
    CHECK(!x.f.valid());
    break;
  case COPY:
    x.s.push_back(x.s.back());
    break;
  case CHAIN: {
    Derived &d = x.d.back();
    mc::ghost c = add(x, d.error == 0);
    d.r = next_(d.r, x.exec, [c, t = Tracked(7)](int v) {
      Pause u;
      CHECK(t.get() == 7);
      c.bump();
      return v + 100;
    });
    d.value += 100;
    if (d.error)
      d.error += 100;
    d.cbs.push_back(static_cast<int>(x.cbs.size()) - 1);
    break;
  }
#if defined(__cpp_impl_coroutine)
  case AWAIT_D: {
    Derived &d = x.d.back();
    mc::ghost c = add(x, d.error == 0);
    d.r = awaiting_derived(std::move(d.r), c, Tracked(7));
    d.value += 200;
    if (d.error)
      d.error += 200;
    d.cbs.push_back(static_cast<int>(x.cbs.size()) - 1);
    x.kept = true;
    break;
  }
#endif
  case DROP_D:
    x.loose = x.loose || x.combined;
    x.d.pop_back();
    break;
  case GET_D:
    finished(x, x.d.back());
    x.d.pop_back();
    x.kept = true;
    break;
  default:
    if (x.f.valid())
      both(x, x.f, op);
    else {
      struct Keep { // put back what is left of it, after a failure too
        State<E> &x;
        pc::shared_future<Tracked> h = std::move(x.s.back());
        Keep(State<E> &x) : x(x) { x.s.pop_back(); }
        ~Keep() {
          if (h.valid())
            x.s.push_back(std::move(h));
        }
      } k(x);
      both(x, k.h, op);
    }
  }
}
// pool 0: in place; 1: a pool that is drained; 2: a pool that is stopped
template <int Pool> void run(int len, int sources, int hows) {
  init();
  Arena *a = make_arena(0);
  {
    std::unique_ptr<pc::static_thread_pool> pool;
    using E = std::conditional_t<Pool == 0, inplace, pc::static_thread_pool::executor_type>;
    struct mk {
      static inplace get(std::unique_ptr<pc::static_thread_pool> &, inplace *) { return {}; }
      static pc::static_thread_pool::executor_type get(std::unique_ptr<pc::static_thread_pool> &p, pc::static_thread_pool::executor_type *) {
        p.reset(new pc::static_thread_pool(1));
        return p->executor();
      }
    };
    State<E> x{mk::get(pool, static_cast<E *>(nullptr))};
    const int src = mc::choose(sources);
    x.how = mc::choose(hows);
    mc::ghost cancelled;
    auto p = src == 0   ? pc::make_promise<Tracked>()
             : src == 1 ? pc::make_promise<Tracked>(arena_alloc<char>(a))
                        : pc::make_promise<Tracked>(pc::canceler_arg, [cancelled, t = Tracked(9)] {
                            CHECK(t.get() == 9);
                            cancelled.bump();
                          });
    x.f = std::move(p.second);
    bool source_held;
    {
      thr t([p = std::move(p.first), how = x.how]() mutable { supply(std::move(p), how); });
      for (int i = 0; i < len; i++)
        step(x);
      source_held = x.f.valid() || !x.s.empty() || !x.d.empty() || x.kept;
      if (Pool == 2) {
        pool->stop();
        x.lossy = true;
      }
      t.join();
      if (Pool == 1) {
        // chained tasks are posted by tasks: wait for the last ones before closing the pool
        for (auto &d : x.d)
          d.r.wait();
        pool->wait();
      }
      pool.reset();
    }
    if (source_held) {
      CHECK(cancelled.peek() == 0, "cancelled although the result is awaited");
      for (int n : x.notes)
        ran(x, n);
      for (auto &w : x.w)
        CHECK(w.wait_for(std::chrono::seconds(0)) == pc::future_status::ready);
    } else
      CHECK(cancelled.peek() <= 1);
    if (x.f.valid()) {
      CHECK(x.f.is_ready());
      const int o = get_outcome(x.f);
      CHECK(o == source_outcome(x.how), "(%d)", o);
    }
    for (auto &s : x.s) {
      CHECK(s.is_ready());
      const int o = get_outcome(s);
      CHECK(o == source_outcome(x.how), "(%d)", o);
    }
    for (auto &d : x.d) {
      CHECK(d.r.is_ready());
      finished(x, d);
    }
    for (auto &c : x.cbs)
      CHECK(c.runs.peek() <= 1 && (!c.on_value || x.how == 0 || c.runs.peek() == 0), "a function ran %ld times", c.runs.peek());
    x.s.clear();
    x.d.clear();
    x.w.clear();
    x.others.clear();
    CHECK(live_tracked() == 0, "%ld objects alive", live_tracked());
  }
  CHECK(a->blocks == 0);
}
// Two consumers with a program each, on copies of one shared result, racing with each other and with the supply.
inline void run_pair(int len1, int len2, int hows) {
  init();
  {
    State<inplace> x{{}}, y{{}};
    x.how = y.how = mc::choose(hows);
    mc::ghost cancelled;
    auto p = pc::make_promise<Tracked>(pc::canceler_arg, [cancelled, t = Tracked(9)] {
      CHECK(t.get() == 9);
      cancelled.bump();
    });
    x.s.push_back(p.second.share());
    y.s.push_back(x.s.back());
    {
      thr t([p = std::move(p.first), how = x.how]() mutable { supply(std::move(p), how); });
      thr u([&y, len2] {
        for (int i = 0; i < len2; i++)
          step(y);
      });
      for (int i = 0; i < len1; i++)
        step(x);
    }
    const auto held = [](State<inplace> &v) { return !v.s.empty() || !v.d.empty() || v.kept; };
    const bool source_held = held(x) || held(y);
    CHECK(cancelled.peek() <= (source_held ? 0 : 1), "cancelled although the result is awaited");
    for (State<inplace> *v : {&x, &y}) {
      if (source_held) {
        for (int n : v->notes)
          ran(*v, n);
        for (auto &w : v->w)
          CHECK(w.wait_for(std::chrono::seconds(0)) == pc::future_status::ready);
      }
      for (auto &s : v->s) {
        CHECK(s.is_ready());
        const int o = get_outcome(s);
        CHECK(o == source_outcome(x.how), "(%d)", o);
      }
      for (auto &d : v->d) {
        CHECK(d.r.is_ready());
        finished(*v, d);
      }
      for (auto &c : v->cbs)
        CHECK(c.runs.peek() <= 1 && (!c.on_value || x.how == 0 || c.runs.peek() == 0), "a function ran %ld times", c.runs.peek());
    }
    for (State<inplace> *v : {&x, &y}) {
      v->s.clear();
      v->d.clear();
      v->w.clear();
      v->others.clear();
    }
    CHECK(live_tracked() == 0, "%ld objects alive", live_tracked());
  }
}
// One thread: all programs with the supply at every position, is_awaiten and the cancel action after every step.
inline void run_awaiten(int len, int sources, int hows) {
  init();
  Arena *a = make_arena(0);
  {
    State<inplace> x{{}};
    const int src = mc::choose(sources), at = mc::choose(len + 1);
    x.how = at < len ? mc::choose(hows) : 2;
    x.may_block = false;
    mc::ghost cancelled;
    auto p = src == 0   ? pc::make_promise<Tracked>(pc::canceler_arg, [cancelled, t = Tracked(9)] {
                            CHECK(t.get() == 9);
                            cancelled.bump();
                          })
             : src == 1 ? pc::make_promise<Tracked>()
                        : pc::make_promise<Tracked>(arena_alloc<char>(a));
    x.f = std::move(p.second);
    bool gone = false; // nobody awaited the result at some moment before it was supplied
    for (int i = 0; i <= len; i++) {
      if (i == at) {
        if (x.how != 2) {
          if (x.how == 0)
            p.first.set_value(Tracked(1));
          else
            p.first.set_exception(err(2));
          x.kept = false; // kept until supplied
        } else
          p.first = pc::promise<Tracked>();
        x.may_block = true;
      } else if (i < len)
        step(x);
      const bool supplied = i >= at;
      const bool futures = x.f.valid() || !x.s.empty();
      const bool held = supplied ? futures : futures || !x.d.empty() || x.kept;
      if (!supplied && !held)
        gone = true;
      if (!(supplied && x.how == 2) && !(x.loose && !futures))
        CHECK(p.first.is_awaiten() == held, "is_awaiten after operation %d", i);
      CHECK(cancelled.peek() == (gone && src == 0 ? 1 : 0), "cancel action invoked %ld times", cancelled.peek());
      if (gone)
        mc::outcome("gone");
    }
    x.w.clear();
    x.others.clear();
    x.s.clear();
    x.d.clear();
    x.f = pc::future<Tracked>();
    p.first = pc::promise<Tracked>();
    CHECK(cancelled.peek() == (gone && src == 0 ? 1 : 0), "cancel action invoked %ld times", cancelled.peek());
    CHECK(live_tracked() == 0, "%ld objects alive", live_tracked());
  }
  CHECK(a->blocks == 0);
}
// One thread: all programs with the supply at every position and the failure of each allocation of the library.
inline void run_faulty(int len, int hows) {
  init();
  {
    State<inplace> x{{}};
    const int at = mc::choose(len + 1);
    x.how = at < len ? mc::choose(hows) : 2;
    x.may_block = false;
    const int victim = mc::choose(len + (x.how == 2 ? 0 : 1)), k = mc::choose(6) + 1;
    auto p = pc::make_promise<Tracked>();
    x.f = std::move(p.second);
    bool &affected = x.hurt;
    for (int i = 0; i <= len; i++) {
      if (i == victim)
        faults().left = k;
      if (i == at) {
        if (x.how != 2) {
          Tracked v(1);
          const auto e = err(2);
          const auto fire = [&] {
            if (x.how == 0)
              p.first.set_value(v);
            else
              p.first.set_exception(e);
          };
          const int o = outcome_of([&] {
            Guard g;
            fire();
            return 0;
          });
          faults().left = 0;
          CHECK(o == 0 || (o == BADALLOC && faults().fired), "(%d)", o);
          if (o && outcome_of([&] { return fire(), 0; }) == 0)
            mc::outcome("supplied at the second attempt");
        } else
          p.first = pc::promise<Tracked>();
        affected = affected || faults().fired;
        x.may_block = true;
      } else if (i < len) {
        const size_t had = x.d.size();
        const int o = outcome_of([&] { return step(x), 0; });
        CHECK(o == 0 || (o == BADALLOC && faults().fired), "(%d)", o);
        if (o) {
          mc::outcome("operation failed");
          if (x.d.size() == had && had && !x.d.back().r.valid())
            x.d.pop_back();
        } else if (faults().fired)
          affected = true;
        // what is left can be used
        if (x.f.valid())
          x.f.is_ready();
      }
      if (i == victim && !faults().fired)
        mc::discard(); // not that many allocations
      faults().left = 0;
    }
    if (affected)
      mc::outcome("result affected");
    const bool held = x.f.valid() || !x.s.empty();
    if (held) {
      for (int n : x.notes)
        CHECK(x.cbs[n].runs.peek() == 1, "notification ran %ld times", x.cbs[n].runs.peek());
      for (auto &w : x.w)
        CHECK(w.wait_for(std::chrono::seconds(0)) == pc::future_status::ready);
    }
    if (x.f.valid()) {
      CHECK(x.f.is_ready());
      CHECK(get_outcome(x.f) == source_outcome(x.how));
    }
    for (auto &s : x.s) {
      CHECK(s.is_ready());
      CHECK(get_outcome(s) == source_outcome(x.how));
    }
    int failed = 0;
    for (auto &d : x.d) {
      CHECK(d.r.valid() && d.r.is_ready(), "a derived future is not ready");
      const int o = outcome_of([&] { return d.r.get(); });
      const int want = x.how == 0 ? d.value : d.error ? d.error : source_outcome(x.how);
      if (o == BADALLOC && affected) {
        failed++;
        continue;
      }
      CHECK(o == want, "derived result %d, expected %d", o, want);
      for (int c : d.cbs)
        ran(x, c);
    }
    CHECK(failed <= 1, "one failure reached %d results", failed);
    for (auto &c : x.cbs)
      CHECK(c.runs.peek() <= 1, "a function ran %ld times", c.runs.peek());
    x.w.clear();
    x.others.clear();
    x.s.clear();
    x.d.clear();
    x.f = pc::future<Tracked>();
    p.first = pc::promise<Tracked>();
    CHECK(live_tracked() == 0, "%ld objects alive", live_tracked());
  }
}
} // namespace prog
