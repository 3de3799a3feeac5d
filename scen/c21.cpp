// C21: coroutines await and return futures with exactly-once resumption. MC_STD: gnu++20
#include "common.h"
#include <coroutine>

// Observations of one coroutine.
struct Log {
  mc::ghost started, resumed, ended, destroyed, seen;
};
// local variable of a coroutine frame
struct Frame {
  Log l;
  Tracked t{77};
  explicit Frame(Log x) : l(x) { l.started.bump(); }
  Frame(const Frame &) = delete;
  ~Frame() {
    CHECK(t.get() == 77);
    l.destroyed.bump();
  }
};
enum { H_VALUE, H_EXC, H_BROKEN };
template <typename T> static void finish(pc::promise<T> &p, int how) {
  if (how == H_VALUE)
    set_id<T>(p, 1);
  else if (how == H_EXC)
    p.set_exception(err(1));
  else {
    pc::promise<T> gone(std::move(p));
  }
}
template <typename T> static int want(int how) { return how == H_VALUE ? vid<T>(1) : how == H_EXC ? EXC - 1 : BROKEN; }

// ---------------------------------------------------------------- returning
template <typename Fut, typename T> struct ret {
  static Fut go(Log l, int how) {
    Frame fr(l);
    if (how == H_EXC)
      throw test_error{1};
    co_return kind<T>::make(1);
  }
};
template <typename Fut> struct ret<Fut, void> {
  static Fut go(Log l, int how) {
    Frame fr(l);
    if (how == H_EXC)
      throw test_error{1};
    co_return;
  }
};
template <typename T, bool SH> static void returning() {
  using Fut = std::conditional_t<SH, pc::shared_future<T>, pc::future<T>>;
  Log l;
  {
    const int how = mc::choose(2), keep = mc::choose(2);
    Fut f = ret<Fut, T>::go(l, how);
    CHECK(l.started.peek() == 1 && l.destroyed.peek() == 1, "the frame is alive after the coroutine ended");
    CHECK(f.valid() && f.is_ready());
    if (keep) {
      const int o = get_outcome(f);
      CHECK(o == want<T>(how), "(%d)", o);
      CHECK(f.valid() == SH);
      if (SH)
        CHECK(get_outcome(f) == want<T>(how));
    }
  }
  CHECK(l.destroyed.peek() == 1);
}
SCENARIO(C21, returning) {
  init();
  switch (mc::choose(10)) {
  case 0: returning<int, false>(); break;
  case 1: returning<int, true>(); break;
  case 2: returning<Tracked, false>(); break;
  case 3: returning<Tracked, true>(); break;
  case 4: returning<uptr, false>(); break;
  case 5: returning<uptr, true>(); break;
  case 6: returning<int &, false>(); break;
  case 7: returning<int &, true>(); break;
  case 8: returning<void, false>(); break;
  case 9: returning<void, true>(); break;
  }
  NO_TRACKED_LEFT();
}
// lvalue and rvalue co_return
static pc::future<Tracked> ret_lvalue(Log l, const Tracked &x) {
  Frame fr(l);
  co_return x;
}
static pc::future<std::string> ret_local(Log l) {
  Frame fr(l);
  std::string s = kind<std::string>::make(2);
  co_return s;
}
SCENARIO(C21, returning_lvalue) {
  init();
  {
    Log l;
    Tracked x(4);
    pc::future<Tracked> f = ret_lvalue(l, x);
    CHECK(x.get() == 4, "co_return of an lvalue modified it");
    CHECK(get_outcome(f) == 4);
    CHECK(x.get() == 4);
    CHECK(kind<std::string>::id(ret_local(l).get()) == 2);
    CHECK(l.destroyed.peek() == 2);
  }
  NO_TRACKED_LEFT();
}

// ---------------------------------------------------------------- awaiting
template <typename T> struct awaiter {
  template <typename Fut> static std::suspend_never none(Fut &);
};
template <typename T, typename Fut> struct aw {
  // resumption is counted and the outcome seen recorded
  static pc::future<int> go(Log l, Fut f, int after) {
    Frame fr(l);
    int o;
    try {
      if constexpr (std::is_void<T>::value) {
        co_await f;
        o = 0;
      } else if constexpr (std::is_reference<T>::value) {
        T r = co_await f;
        o = kind<T>::id(r);
      } else if constexpr (std::is_same<Fut, pc::future<T>>::value) {
        T v = co_await f;
        o = kind<T>::id(v);
      } else {
        const T &v = co_await f;
        o = kind<T>::id(v);
        CHECK(&v == &f.get(), "not the shared object");
      }
    } catch (...) {
      o = classify(std::current_exception());
    }
    l.resumed.bump();
    l.seen.poke(o);
    CHECK(fr.t.get() == 77);
    if constexpr (std::is_same<Fut, pc::future<T>>::value)
      CHECK(!f.valid(), "an awaited future stays valid");
    else
      CHECK(f.valid() && f.is_ready());
    l.ended.bump();
    if (after == 1)
      throw test_error{9};
    co_return 1000 + 3;
  }
};
static int want_after(int after) { return after == 1 ? EXC - 9 : 3; }

template <typename T, typename Fut> static void awaiting() {
  Log l;
  {
    const int how = mc::choose(3), when = mc::choose(2), after = mc::choose(2), drop = mc::choose(3), alloc = mc::choose(2);
    auto x = alloc ? pc::make_promise<T>(std::allocator<char>()) : pc::make_promise<T>();
    Fut in(std::move(x.second));
    if (when == 0)
      finish(x.first, how);
    pc::future<int> r = aw<T, Fut>::go(l, std::move(in), after);
    CHECK(!in.valid());
    CHECK(l.started.peek() == 1);
    if (when == 0)
      CHECK(l.ended.peek() == 1 && l.destroyed.peek() == 1 && r.is_ready());
    else {
      CHECK(l.resumed.peek() == 0 && l.destroyed.peek() == 0 && !r.is_ready(), "resumed before readiness");
      CHECK(x.first.is_awaiten());
    }
    mc::ghost n;
    if (drop == 1)
      r = pc::future<int>();
    else if (drop == 2)
      r.notify([n] { n.bump(); });
    if (when == 1) {
      CHECK(l.destroyed.peek() == 0, "dropping the result destroyed the frame");
      finish(x.first, how);
    }
    CHECK(l.resumed.peek() == 1 && l.ended.peek() == 1 && l.destroyed.peek() == 1, "(%ld %ld %ld)", l.resumed.peek(), l.ended.peek(), l.destroyed.peek());
    CHECK(l.seen.peek() == want<T>(how), "(%ld)", l.seen.peek());
    if (drop == 2)
      CHECK(n.peek() == 1);
    if (drop != 1)
      CHECK(r.is_ready() && get_outcome(r) == want_after(after));
  }
  CHECK(l.destroyed.peek() == 1);
}
SCENARIO(C21, awaiting) {
  init();
  switch (mc::choose(10)) {
  case 0: awaiting<int, pc::future<int>>(); break;
  case 1: awaiting<int, pc::shared_future<int>>(); break;
  case 2: awaiting<Tracked, pc::future<Tracked>>(); break;
  case 3: awaiting<Tracked, pc::shared_future<Tracked>>(); break;
  case 4: awaiting<uptr, pc::future<uptr>>(); break;
  case 5: awaiting<uptr, pc::shared_future<uptr>>(); break;
  case 6: awaiting<int &, pc::future<int &>>(); break;
  case 7: awaiting<int &, pc::shared_future<int &>>(); break;
  case 8: awaiting<void, pc::future<void>>(); break;
  case 9: awaiting<void, pc::shared_future<void>>(); break;
  }
  NO_TRACKED_LEFT();
}
// an exception the coroutine does not catch, and a value passed through, reach its own future
template <typename T> struct pass {
  template <typename Res, typename Fut> static Res go(Log l, Fut f) {
    Frame fr(l);
    if constexpr (std::is_void<T>::value) {
      co_await std::move(f);
      co_return;
    } else
      co_return co_await std::move(f);
  }
};
template <typename T, typename Fut, typename Res> static void passing() {
  Log l;
  {
    const int how = mc::choose(3), when = mc::choose(2), depth = 1 + mc::choose(3);
    auto x = pc::make_promise<T>();
    Fut in(std::move(x.second));
    if (when == 0)
      finish(x.first, how);
    Res r = pass<T>::template go<Res>(l, std::move(in));
    for (int i = 1; i < depth; i++)
      r = pass<T>::template go<Res>(l, std::move(r));
    CHECK(l.started.peek() == depth);
    if (when == 1) {
      CHECK(!r.is_ready() && l.destroyed.peek() == 0);
      finish(x.first, how);
    }
    CHECK(r.is_ready() && l.destroyed.peek() == depth);
    CHECK(get_outcome(r) == want<T>(how));
  }
  CHECK(l.started.peek() == l.destroyed.peek());
}
SCENARIO(C21, passing) {
  init();
  switch (mc::choose(10)) {
  case 0: passing<int, pc::future<int>, pc::future<int>>(); break;
  case 1: passing<int, pc::shared_future<int>, pc::future<int>>(); break;
  case 2: passing<Tracked, pc::future<Tracked>, pc::shared_future<Tracked>>(); break;
  case 3: passing<Tracked, pc::shared_future<Tracked>, pc::future<Tracked>>(); break;
  case 4: passing<Tracked, pc::shared_future<Tracked>, pc::shared_future<Tracked>>(); break;
  case 5: passing<uptr, pc::future<uptr>, pc::future<uptr>>(); break;
  case 6: passing<int &, pc::future<int &>, pc::shared_future<int &>>(); break;
  case 7: passing<int &, pc::shared_future<int &>, pc::future<int &>>(); break;
  case 8: passing<void, pc::future<void>, pc::shared_future<void>>(); break;
  case 9: passing<void, pc::shared_future<void>, pc::future<void>>(); break;
  }
  NO_TRACKED_LEFT();
}

// ---------------------------------------------------------------- races of suspension and completion
// the producer's thread completes while the coroutine starts in this one; how it ends is observed in several ways
template <typename T, typename Fut> static void race() {
  init();
  Log l;
  {
    const int how = mc::choose(3), obs = mc::choose(5), alloc = mc::choose(2);
    int *data = new int(0);
    auto x = alloc ? pc::make_promise<T>(std::allocator<char>()) : pc::make_promise<T>();
    mc::ghost n;
    pc::future<int> r;
    {
      thr t([p = std::move(x.first), how, data]() mutable {
        *data = 5; // visible after resumption
        finish(p, how);
      });
      Fut in(std::move(x.second));
      r = aw<T, Fut>::go(l, std::move(in), 0);
      switch (obs) {
      case 0:
        CHECK(get_outcome(r) == 3);
        CHECK(*data == 5);
        break;
      case 1:
        r = pc::future<int>();
        break;
      case 2:
        r.notify([n, data] {
          CHECK(*data == 5);
          n.bump();
        });
        break;
      case 3: {
        pc::future<int> s = r.next([n, data](int v) {
          CHECK(v == 1003 && *data == 5);
          n.bump();
          return v;
        });
        CHECK(get_outcome(s) == 3);
        break;
      }
      case 4:
        if (r.is_ready())
          CHECK(l.ended.peek() == 1 && *data == 5);
        r.detach();
        break;
      }
    }
    CHECK(l.started.peek() == 1 && l.resumed.peek() == 1 && l.ended.peek() == 1 && l.destroyed.peek() == 1, "(%ld %ld %ld)", l.resumed.peek(), l.ended.peek(), l.destroyed.peek());
    CHECK(l.seen.peek() == want<T>(how), "(%ld)", l.seen.peek());
    if (obs == 2 || obs == 3)
      CHECK(n.peek() == 1);
    delete data;
  }
  NO_TRACKED_LEFT();
}
SCENARIO(C21, race_int, o.preempt = -1) { race<int, pc::future<int>>(); }
SCENARIO(C21, race_shared_int, o.preempt = -1) { race<int, pc::shared_future<int>>(); }
SCENARIO(C21, race_tracked, o.preempt = -1) { race<Tracked, pc::future<Tracked>>(); }
SCENARIO(C21, race_shared_tracked, o.preempt = -1) { race<Tracked, pc::shared_future<Tracked>>(); }
SCENARIO(C21, race_void, o.preempt = -1) { race<void, pc::future<void>>(); }

// the coroutine starts in the other thread, its result is taken over by this one
static void race_start(int lo, int hi) {
  init();
  Log l;
  {
    const int how = mc::choose(3), mid = lo + mc::choose(hi - lo);
    auto x = pc::make_promise<Tracked>();
    auto y = pc::make_promise<int>();
    {
      thr t([&x, how] { finish(x.first, how); });
      thr u([&, in = std::move(x.second)]() mutable {
        if (mid == 0) {
          pc::future<int> r = aw<Tracked, pc::future<Tracked>>::go(l, std::move(in), 0);
          r.next([p = std::move(y.first)](int v) mutable { p.set_value(v); }).detach();
        } else if (mid == 1) {
          pc::future<Tracked> m = pass<Tracked>::go<pc::future<Tracked>>(l, std::move(in));
          pc::future<int> r = aw<Tracked, pc::future<Tracked>>::go(l, std::move(m), 0);
          r.next([p = std::move(y.first)](int v) mutable { p.set_value(v); }).detach();
        } else {
          pc::shared_future<Tracked> m = pass<Tracked>::go<pc::shared_future<Tracked>>(l, std::move(in));
          aw<Tracked, pc::shared_future<Tracked>>::go(l, m, 0);
          pc::future<int> r = aw<Tracked, pc::shared_future<Tracked>>::go(l, std::move(m), 0);
          r.next([p = std::move(y.first)](int v) mutable { p.set_value(v); }).detach();
        }
      });
      CHECK(get_outcome(y.second) == 3);
    }
    CHECK(l.started.peek() == mid + 1 && l.destroyed.peek() == mid + 1, "(%ld of %d)", l.destroyed.peek(), mid + 1);
    CHECK(l.resumed.peek() == (mid == 2 ? 2 : 1));
    CHECK(l.seen.peek() == want<Tracked>(how), "(%ld)", l.seen.peek());
  }
  NO_TRACKED_LEFT();
}
SCENARIO(C21, race_start, o.preempt = 3; o.preempt_max = 5) { race_start(0, 1); }
SCENARIO(C21, race_start_chain, o.preempt = 3; o.preempt_max = 4) { race_start(1, 3); }

// several coroutines and other waiters on one shared result
SCENARIO(C21, race_shared_many, o.preempt = 2; o.preempt_max = 5) {
  init();
  Log a, b;
  {
    const int how = mc::choose(3), other = mc::choose(3);
    auto x = pc::make_promise<Tracked>();
    mc::ghost n;
    {
      pc::shared_future<Tracked> s = x.second.share();
      thr t([p = std::move(x.first), how]() mutable { finish(p, how); });
      thr u([&, c = s]() mutable {
        if (other == 0)
          aw<Tracked, pc::shared_future<Tracked>>::go(b, std::move(c), 1);
        else if (other == 1)
          CHECK(get_outcome(c) == want<Tracked>(how));
        else
          c.notify([n] { n.bump(); });
      });
      pc::future<int> r = aw<Tracked, pc::shared_future<Tracked>>::go(a, s, 0);
      CHECK(get_outcome(r) == 3);
      CHECK(get_outcome(s) == want<Tracked>(how), "the shared result was modified");
    }
    CHECK(a.resumed.peek() == 1 && a.ended.peek() == 1 && a.destroyed.peek() == 1 && a.seen.peek() == want<Tracked>(how));
    if (other == 0)
      CHECK(b.resumed.peek() == 1 && b.ended.peek() == 1 && b.destroyed.peek() == 1 && b.seen.peek() == want<Tracked>(how));
    if (other == 2)
      CHECK(n.peek() == 1);
  }
  NO_TRACKED_LEFT();
}

// several awaits in one coroutine, completed by different threads in any order
static pc::future<int> sum(Log l, pc::future<int> a, pc::future<int> b, pc::shared_future<int> c) {
  Frame fr(l);
  int r = 0;
  r += co_await a;
  l.resumed.bump();
  r += 10 * co_await b;
  l.resumed.bump();
  r += 100 * co_await c;
  l.resumed.bump();
  co_return r;
}
SCENARIO(C21, several, o.preempt = 5; o.preempt_max = -1) {
  init();
  Log l;
  {
    auto a = pc::make_promise<int>();
    auto b = pc::make_promise<int>();
    auto c = pc::make_promise<int>();
    const int order = mc::choose(3), threads = mc::choose(2);
    {
      thr t, u;
      if (threads) {
        t = thr([&] {
          if (order == 0) {
            a.first.set_value(1);
            c.first.set_value(3);
          } else if (order == 1) {
            c.first.set_value(3);
            a.first.set_value(1);
          } else
            b.first.set_value(2);
        });
        u = thr([&] {
          if (order != 2)
            b.first.set_value(2);
          else {
            c.first.set_value(3);
            a.first.set_value(1);
          }
        });
      }
      pc::future<int> r = sum(l, std::move(a.second), std::move(b.second), c.second.share());
      if (!threads) {
        pc::promise<int> *p[3] = {&a.first, &b.first, &c.first};
        int done[3] = {0, 0, 0};
        for (int k = 0; k < 3; k++) {
          int i = mc::choose(3);
          if (done[i])
            mc::discard();
          done[i] = 1;
          p[i]->set_value(i + 1);
          int m = 0;
          while (m < 3 && done[m])
            m++;
          CHECK(l.resumed.peek() == m, "resumed %ld times, %d awaited results are there", l.resumed.peek(), m);
        }
      }
      CHECK(r.get() == 321);
    }
    CHECK(l.started.peek() == 1 && l.destroyed.peek() == 1 && l.resumed.peek() == 3);
  }
  NO_TRACKED_LEFT();
}
// loop of awaits: every iteration suspends and resumes once
static pc::future<int> loop(Log l, std::vector<pc::future<int>> v) {
  Frame fr(l);
  int r = 0;
  for (auto &f : v) {
    try {
      r = r * 10 + co_await f;
    } catch (const test_error &e) {
      r = r * 10 + e.id;
    }
    l.resumed.bump();
  }
  co_return r;
}
SCENARIO(C21, loop, o.preempt = 6; o.preempt_max = -1) {
  init();
  Log l;
  {
    std::vector<pc::promise<int>> p;
    std::vector<pc::future<int>> v;
    const int exc = mc::choose(3);
    for (int i = 0; i < 3; i++) {
      auto x = pc::make_promise<int>();
      p.push_back(std::move(x.first));
      v.push_back(std::move(x.second));
    }
    {
      thr t([&] {
        for (int i = 0; i < 3; i++)
          if (i == exc)
            p[i].set_exception(err(i + 1));
          else
            p[i].set_value(i + 1);
      });
      pc::future<int> r = loop(l, std::move(v));
      CHECK(r.get() == 123);
    }
    CHECK(l.started.peek() == 1 && l.destroyed.peek() == 1 && l.resumed.peek() == 3);
  }
  NO_TRACKED_LEFT();
}

// ---------------------------------------------------------------- together with the rest of the library
static pc::future<int> await_all(Log l, pc::future<int> a, pc::future<int> b) {
  Frame fr(l);
  auto t = co_await pc::when_all(std::move(a), std::move(b));
  l.resumed.bump();
  CHECK(std::get<0>(t).is_ready() && std::get<1>(t).is_ready());
  co_return std::get<0>(t).get() + 10 * co_await std::get<1>(t);
}
static pc::future<int> await_any(Log l, pc::future<int> a, pc::future<int> b) {
  Frame fr(l);
  auto t = co_await pc::when_any(std::move(a), std::move(b));
  l.resumed.bump();
  CHECK(t.index == 0 || t.index == 1);
  CHECK(t.index == 0 ? std::get<0>(t.futures).is_ready() : std::get<1>(t.futures).is_ready());
  int r = co_await std::get<0>(t.futures);
  r += 10 * co_await std::get<1>(t.futures);
  co_return r;
}
SCENARIO(C21, combinators, o.preempt = 3; o.preempt_max = 4) {
  init();
  Log l;
  {
    auto a = pc::make_promise<int>();
    auto b = pc::make_promise<int>();
    const int any = mc::choose(2);
    {
      thr t([&a] { a.first.set_value(1); });
      thr u([&b] { b.first.set_value(2); });
      pc::future<int> r = any ? await_any(l, std::move(a.second), std::move(b.second)) : await_all(l, std::move(a.second), std::move(b.second));
      CHECK(r.get() == 21);
    }
    CHECK(l.started.peek() == 1 && l.destroyed.peek() == 1 && l.resumed.peek() == 1);
  }
  NO_TRACKED_LEFT();
}
// tasks on a pool, and a continuation which is a coroutine (its future is unwrapped)
static pc::future<int> on_pool(Log l, pc::static_thread_pool &pool) {
  Frame fr(l);
  int a = co_await pc::async(pool.executor(), [] { return 4; });
  l.resumed.bump();
  co_return a + 1000 - 1;
}
SCENARIO(C21, pool, o.preempt = 4; o.preempt_max = 6) {
  init();
  Log l;
  {
    pc::static_thread_pool pool(1);
    pc::future<int> r = on_pool(l, pool);
    CHECK(get_outcome(r) == 3);
    pool.wait();
    CHECK(l.started.peek() == 1 && l.destroyed.peek() == 1 && l.resumed.peek() == 1);
  }
  NO_TRACKED_LEFT();
}
SCENARIO(C21, coroutine_continuation, o.preempt = 2; o.preempt_max = 4) {
  init();
  Log l;
  {
    const int how = mc::choose(3), op = mc::choose(3);
    auto x = pc::make_promise<int>();
    auto y = pc::make_promise<Tracked>();
    {
      thr t([p = std::move(x.first)]() mutable { p.set_value(1001); });
      thr u([p = std::move(y.first), how]() mutable { finish(p, how); });
      pc::future<int> r;
      if (op == 0)
        r = x.second.next([&](int) { return aw<Tracked, pc::future<Tracked>>::go(l, std::move(y.second), 0); });
      else if (op == 1)
        r = x.second.then([&](pc::future<int>) { return aw<Tracked, pc::future<Tracked>>::go(l, std::move(y.second), 0); });
      else
        r = x.second.share().next([&](const int &) { return aw<Tracked, pc::future<Tracked>>::go(l, std::move(y.second), 0); });
      CHECK(get_outcome(r) == 3);
    }
    CHECK(l.started.peek() == 1 && l.destroyed.peek() == 1 && l.resumed.peek() == 1);
    CHECK(l.seen.peek() == want<Tracked>(how));
  }
  NO_TRACKED_LEFT();
}
// an executor that drops its task resumes the coroutine with broken_promise; a queue resumes it when it runs
SCENARIO(C21, executors) {
  init();
  Log l;
  Queue q;
  {
    const int what = mc::choose(4);
    auto fn = [] { return Tracked(1); };
    pc::future<int> r;
    switch (what) {
    case 0:
      r = aw<Tracked, pc::future<Tracked>>::go(l, pc::async(dropper{}, fn), 0);
      break;
    case 1:
      r = aw<Tracked, pc::future<Tracked>>::go(l, pc::async(inl{1}, fn), 0);
      break;
    default:
      r = aw<Tracked, pc::future<Tracked>>::go(l, pc::async(qexec{&q}, fn), 0);
      CHECK(l.resumed.peek() == 0 && !r.is_ready());
      if (what == 2)
        q.run_all();
      else
        q.q.clear();
    }
    CHECK(r.is_ready() && l.resumed.peek() == 1 && l.destroyed.peek() == 1);
    CHECK(l.seen.peek() == (what == 0 || what == 3 ? BROKEN : 1), "(%ld)", l.seen.peek());
  }
  NO_TRACKED_LEFT();
}
// the awaited task stays awaited as long as the frame lives, although the coroutine's own future is gone
SCENARIO(C21, awaited, o.preempt = -1) {
  init();
  Log l;
  {
    auto x = pc::make_promise<Tracked>(pc::canceler_arg, [] { mc::fail("cancelled although a coroutine awaits it"); });
    {
      pc::future<int> r = aw<Tracked, pc::future<Tracked>>::go(l, std::move(x.second), 0);
      thr t([&] {
        CHECK(x.first.is_awaiten());
        x.first.set_value(Tracked(1));
        CHECK(!x.first.is_awaiten(), "awaited although the coroutine has its value");
      });
      r = pc::future<int>();
    }
    CHECK(l.destroyed.peek() == 1 && l.seen.peek() == 1);
  }
  NO_TRACKED_LEFT();
}
