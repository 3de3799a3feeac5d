// C22: failing user code: throwing copies and moves of values and callables, throwing functions, executors and notifications.
#include "common.h"

// The m-th copy or move from now on throws (0: none).
inline long &fuse() { return ctr().v[20]; }
inline void burn() {
  if (fuse() > 0 && --fuse() == 0)
    throw test_error{66};
}
struct Fuse {
  explicit Fuse(int m) { fuse() = m; }
  ~Fuse() { fuse() = 0; }
};
// A value or captured object whose copies and moves may throw; a failing move leaves the source as it was.
class Bomb {
public:
  explicit Bomb(int v) : t_(v) {}
  Bomb(const Bomb &o) : t_(o.t_) { burn(); }
  Bomb(Bomb &&o) noexcept(false) : t_((burn(), std::move(o.t_))) {}
  Bomb &operator=(const Bomb &o) {
    burn();
    t_ = o.t_;
    return *this;
  }
  Bomb &operator=(Bomb &&o) noexcept(false) {
    burn();
    t_ = std::move(o.t_);
    return *this;
  }
  int get() const { return t_.get(); }

private:
  Tracked t_;
};
template <> struct kind<Bomb> {
  static int id(const Bomb &b) { return b.get(); }
};
template <> struct getter<Bomb> {
  static int get(pc::future<Bomb> &f) {
    return outcome_of([&] {
      Bomb t = f.get();
      return t.get();
    });
  }
  static int get(const pc::shared_future<Bomb> &f) {
    return outcome_of([&] { return f.get().get(); });
  }
};
constexpr int BOOM = EXC - 66;
constexpr int NFUSE = 9;

// ---------------------------------------------------------------- values
// set_value fails: the promise is not satisfied and completes later, no observer is woken before
template <bool SH> static void set_value() {
  init();
  {
    using Fut = std::conditional_t<SH, pc::shared_future<Bomb>, pc::future<Bomb>>;
    const int m = 1 + mc::choose(3), lv = mc::choose(2), then = mc::choose(4), src = mc::choose(3);
    mc::ghost n, k, c;
    auto x = src == 0   ? pc::make_promise<Bomb>()
             : src == 1 ? pc::make_promise<Bomb>(std::allocator<char>())
                        : pc::make_promise<Bomb>(pc::canceler_arg, [c] { c.bump(); });
    Fut f(std::move(x.second));
    f.notify([n] { n.bump(); });
    Bomb v(1);
    int o;
    {
      Fuse fz(m);
      o = outcome_of([&] {
        if (lv)
          x.first.set_value(v);
        else
          x.first.set_value(std::move(v));
        return 0;
      });
    }
    CHECK(o == (m == 1 ? BOOM : 0), "(%d)", o);
    int want = 1;
    if (o) {
      CHECK(v.get() == 1, "the value is gone although storing it failed");
      CHECK(!f.is_ready() && n.peek() == 0, "ready although no value was stored");
      CHECK(x.first.is_awaiten());
      switch (then) {
      case 0:
        x.first.set_value(Bomb(2));
        want = 2;
        break;
      case 1:
        x.first.set_exception(err(3));
        want = EXC - 3;
        break;
      case 2: {
        pc::promise<Bomb> gone(std::move(x.first));
        want = BROKEN;
        break;
      }
      case 3: {
        Fuse fz(1);
        CHECK(outcome_of([&] {
                x.first.set_value(v);
                return 0;
              }) == BOOM);
      }
        x.first.set_value(v);
        break;
      }
    }
    CHECK(f.is_ready() && n.peek() == 1 && c.peek() == 0);
    CHECK(get_outcome(f) == want);
  }
  NO_TRACKED_LEFT();
}
SCENARIO(C22, set_value) { set_value<false>(); }
SCENARIO(C22, set_value_shared) { set_value<true>(); }

// a waiter blocked meanwhile is woken exactly by the second attempt
SCENARIO(C22, set_value_waiter, o.preempt = -1; o.env = 1) {
  init();
  {
    const int then = mc::choose(3), obs = mc::choose(3);
    auto x = pc::make_promise<Bomb>();
    mc::ghost stored, n;
    pc::shared_future<Bomb> f = x.second.share();
    {
      thr t([&] {
        if (obs == 0) {
          f.wait();
          CHECK(stored.get() == 1, "woken although storing the value failed");
        } else if (obs == 1) {
          if (f.is_ready())
            CHECK(stored.get() == 1);
        } else
          f.notify([stored, n] {
            CHECK(stored.get() == 1);
            n.bump();
          });
      });
      Bomb v(1);
      {
        Fuse fz(1);
        CHECK(outcome_of([&] {
                x.first.set_value(v);
                return 0;
              }) == BOOM);
      }
      stored.set(1);
      if (then == 0)
        x.first.set_value(v);
      else if (then == 1)
        x.first.set_exception(err(3));
      else {
        pc::promise<Bomb> gone(std::move(x.first));
      }
    }
    CHECK(get_outcome(f) == (then == 0 ? 1 : then == 1 ? EXC - 3 : BROKEN));
    if (obs == 2)
      CHECK(n.peek() == 1);
  }
  NO_TRACKED_LEFT();
}

// results of functions: whatever is thrown on the way becomes the result of the future, or reaches the caller
struct ret_fn {
  mc::ghost n;
  int m;
  Bomb operator()() {
    n.bump();
    Bomb b(1);
    fuse() = m;
    return Bomb(std::move(b));
  }
  Bomb operator()(int) { return (*this)(); }
  Bomb operator()(pc::future<int>) { return (*this)(); }
  Bomb operator()(pc::shared_future<int>) { return (*this)(); }
};
SCENARIO(C22, result) {
  init();
  {
    const int how = mc::choose(8), m = 1 + mc::choose(6), extra = mc::choose(2);
    mc::ghost n, seen;
    Queue q;
    auto p = pc::make_promise<int>();
    auto pv = pc::make_promise<void>();
    pc::packaged_task<Bomb()> task;
    pc::future<Bomb> r;
    ret_fn fn{n, m};
    switch (how) {
    case 0:
      task = pc::packaged_task<Bomb()>(fn);
      r = task.get_future();
      break;
    case 1:
      r = pc::async(qexec{&q}, fn);
      break;
    case 2:
      r = p.second.next(fn);
      break;
    case 3:
      r = p.second.then(fn);
      break;
    case 4:
      r = p.second.share().next(fn);
      break;
    case 5:
      r = p.second.share().then(fn);
      break;
    case 6:
      r = p.second.next(qexec{&q}, fn);
      break;
    case 7:
      r = pv.second.next(fn);
      break;
    }
    pc::future<int> tail;
    if (extra)
      tail = r.then([](pc::future<Bomb> f) { return 1000 - get_outcome(f); });
    else
      r.notify([seen] { seen.bump(); });
    const int o = outcome_of([&] {
      if (how == 0)
        task();
      else if (how == 7)
        pv.first.set_value();
      else if (how != 1)
        p.first.set_value(9);
      q.run_all();
      return 0;
    });
    fuse() = 0;
    CHECK(n.peek() == 1);
    CHECK(o == 0 || o == BOOM, "(%d)", o);
    { pc::packaged_task<Bomb()> gone(std::move(task)); }
    int ro;
    if (extra) {
      CHECK(tail.is_ready(), "the continuation is lost");
      ro = -get_outcome(tail);
    } else {
      CHECK(r.is_ready(), "the future never becomes ready");
      CHECK(seen.peek() == 1);
      ro = get_outcome(r);
    }
    mc::outcome("%d %d", o, ro);
    CHECK(ro == 1 || ro == BOOM || (o == BOOM && ro == BROKEN), "(%d)", ro);
  }
  NO_TRACKED_LEFT();
}
// get() by value, next() taking the value: the failing move reaches the caller, everything is released
SCENARIO(C22, get_value) {
  init();
  {
    const int m = 1 + mc::choose(4), how = mc::choose(4);
    auto x = pc::make_promise<Bomb>();
    mc::ghost n;
    if (how == 0) {
      x.first.set_value(Bomb(1));
      fuse() = m;
      const int o = get_outcome(x.second);
      fuse() = 0;
      CHECK(o == 1 || o == BOOM);
      CHECK(!x.second.valid());
      CHECK(live_tracked() == 0, "the value is kept although its future is gone");
    } else if (how == 1) {
      pc::future<int> r = x.second.next([n](Bomb b) {
        n.bump();
        return b.get() + 1000;
      });
      x.first.set_value(Bomb(1));
      CHECK(get_outcome(r) == 1 && n.peek() == 1);
    } else if (how == 2) {
      pc::future<int> r = x.second.next([n](Bomb b) {
        n.bump();
        return b.get() + 1000;
      });
      Bomb v(1);
      fuse() = 1 + m; // storing succeeds, handing over may fail
      x.first.set_value(v);
      fuse() = 0;
      CHECK(r.is_ready());
      const int o = get_outcome(r);
      CHECK(o == 1 || o == BOOM, "(%d)", o);
      mc::outcome("%d", o);
    } else {
      pc::shared_future<Bomb> s = x.second.share();
      pc::future<int> r = s.next([n](Bomb b) { return b.get() + 1000; });
      pc::future<int> r2 = s.next([n](const Bomb &b) { return b.get() + 1000; });
      Bomb v(1);
      fuse() = 1 + m;
      x.first.set_value(v);
      fuse() = 0;
      const int o = get_outcome(r);
      CHECK(o == 1 || o == BOOM, "(%d)", o);
      CHECK(get_outcome(r2) == 1 && get_outcome(s) == 1, "others are affected by a failing copy");
    }
  }
  NO_TRACKED_LEFT();
}
SCENARIO(C22, make_ready) {
  init();
  {
    const int m = 1 + mc::choose(4), lv = mc::choose(2);
    Bomb v(1);
    fuse() = m;
    pc::future<Bomb> f;
    const int o = outcome_of([&] {
      f = lv ? pc::make_ready_future(v) : pc::make_ready_future(std::move(v));
      return 0;
    });
    fuse() = 0;
    CHECK(o == 0 || o == BOOM);
    if (o) {
      CHECK(!f.valid() && live_tracked() == 1);
      CHECK(v.get() == 1);
    } else
      CHECK(get_outcome(f) == 1);
  }
  NO_TRACKED_LEFT();
}

// ---------------------------------------------------------------- callables
struct bomb_fn {
  Bomb b{55};
  mc::ghost n;
  template <typename... A> int operator()(A &&...) {
    CHECK(b.get() == 55);
    n.bump();
    return 1004;
  }
};
struct bomb_then {
  Bomb b{55};
  mc::ghost n;
  int operator()(pc::future<int>) {
    CHECK(b.get() == 55);
    n.bump();
    return 1004;
  }
};
struct bomb_sthen {
  Bomb b{55};
  mc::ghost n;
  int operator()(pc::shared_future<int>) {
    CHECK(b.get() == 55);
    n.bump();
    return 1004;
  }
};
struct bomb_next {
  Bomb b{55};
  mc::ghost n;
  int operator()(int) {
    CHECK(b.get() == 55);
    n.bump();
    return 1004;
  }
  int operator()() {
    CHECK(b.get() == 55);
    n.bump();
    return 1004;
  }
};
struct bomb_ithen {
  Bomb b{55};
  mc::ghost n;
  void operator()(pc::promise<int> p, pc::future<int>) {
    CHECK(b.get() == 55);
    n.bump();
    p.set_value(1004);
  }
};
// attaching: the exception reaches the caller, or, when the callable fails to move later, the continuation's future
static void callable(int lo, int hi) {
  init();
  {
    const int op = lo + mc::choose(hi - lo), m = mc::choose(NFUSE), lv = mc::choose(2), ready = mc::choose(2), ex = mc::choose(2);
    Queue q;
    auto x = pc::make_promise<int>();
    auto y = pc::make_promise<void>();
    pc::shared_future<int> s;
    mc::ghost n, k, seen;
    if (op == 1 || op == 3)
      s = x.second.share();
    auto early = [k] { k.bump(); };
    if (s.valid())
      s.notify(early);
    else
      x.second.notify(early);
    if (ready) {
      x.first.set_value(9);
      y.first.set_value();
    }
    pc::future<int> r;
    const long before = live_tracked();
    const int o = outcome_of([&] {
      auto with = [&](auto fn, auto &&call) {
        fuse() = m;
        if (lv)
          r = call(fn);
        else
          r = call(std::move(fn));
      };
      switch (op) {
      case 0:
        with(bomb_then{Bomb(55), n}, [&](auto &&f) { return ex ? x.second.then(qexec{&q}, std::forward<decltype(f)>(f)) : x.second.then(std::forward<decltype(f)>(f)); });
        break;
      case 1:
        with(bomb_sthen{Bomb(55), n}, [&](auto &&f) { return ex ? s.then(qexec{&q}, std::forward<decltype(f)>(f)) : s.then(std::forward<decltype(f)>(f)); });
        break;
      case 2:
        with(bomb_next{Bomb(55), n}, [&](auto &&f) { return ex ? x.second.next(qexec{&q}, std::forward<decltype(f)>(f)) : x.second.next(std::forward<decltype(f)>(f)); });
        break;
      case 3:
        with(bomb_next{Bomb(55), n}, [&](auto &&f) { return ex ? s.next(qexec{&q}, std::forward<decltype(f)>(f)) : s.next(std::forward<decltype(f)>(f)); });
        break;
      case 4:
        with(bomb_next{Bomb(55), n}, [&](auto &&f) { return ex ? y.second.next(qexec{&q}, std::forward<decltype(f)>(f)) : y.second.next(std::forward<decltype(f)>(f)); });
        break;
      case 5:
        with(bomb_ithen{Bomb(55), n}, [&](auto &&f) { return ex ? x.second.then(qexec{&q}, std::forward<decltype(f)>(f)) : x.second.then(std::forward<decltype(f)>(f)); });
        break;
      }
      return 0;
    });
    CHECK(o == 0 || o == BOOM, "(%d)", o);
    if (o) {
      CHECK(live_tracked() == before, "the failing call kept %ld objects", live_tracked() - before);
      CHECK(!r.valid());
    }
    if (s.valid() || op == 4 || !o || ready || x.second.valid()) {
      if (!ready) {
        x.first.set_value(9);
        y.first.set_value();
      }
      q.run_all();
      if (op != 4 || x.second.valid())
        CHECK(k.peek() == 1, "an earlier notification is lost");
    }
    fuse() = 0;
    mc::outcome("%d %s", o, r.valid() ? "future" : "none");
    if (s.valid())
      CHECK(get_outcome(s) == 9 - 1000);
    else if (x.second.valid() && x.second.is_ready())
      CHECK(get_outcome(x.second) == 9 - 1000);
    if (r.valid()) {
      CHECK(r.is_ready(), "the continuation's future never becomes ready");
      const int ro = get_outcome(r);
      CHECK((ro == 4 && n.peek() == 1) || (ro == BOOM && n.peek() == 0), "(%d, ran %ld times)", ro, n.peek());
    } else
      CHECK(n.peek() == 0);
    q.q.clear();
    CHECK(live_tracked() == 0, "(%ld)", live_tracked());
  }
  NO_TRACKED_LEFT();
}
SCENARIO(C22, callable_then) { callable(0, 5); }
SCENARIO(C22, callable_interruptible) { callable(5, 6); }

SCENARIO(C22, callable_task) {
  init();
  {
    const int op = mc::choose(4), m = mc::choose(NFUSE), lv = mc::choose(2);
    Queue q;
    mc::ghost n;
    pc::future<int> r;
    pc::packaged_task<int()> task;
    pc::unique_function<int()> uf;
    pc::unique_function<int()> old([] { return 3; });
    const int o = outcome_of([&] {
      bomb_fn fn{Bomb(55), n};
      fuse() = m;
      switch (op) {
      case 0:
        if (lv)
          task = pc::packaged_task<int()>(fn);
        else
          task = pc::packaged_task<int()>(std::move(fn));
        r = task.get_future();
        break;
      case 1:
        r = lv ? pc::async(qexec{&q}, fn) : pc::async(qexec{&q}, std::move(fn));
        break;
      case 2:
        r = lv ? pc::async(qexec{&q}, fn, Bomb(1)) : pc::async(qexec{&q}, std::move(fn), Bomb(1));
        break;
      case 3:
        if (lv)
          uf = pc::unique_function<int()>(fn);
        else
          uf = pc::unique_function<int()>(std::move(fn));
        old = std::move(uf);
        break;
      }
      return 0;
    });
    fuse() = 0;
    CHECK(o == 0 || o == BOOM, "(%d)", o);
    if (o) {
      CHECK(live_tracked() == 0, "(%ld objects left behind)", live_tracked());
      CHECK(!r.valid() && q.q.empty());
      CHECK(!task.valid());
      CHECK(old() == 3);
    } else {
      if (op == 0)
        task();
      q.run_all();
      if (op == 3)
        CHECK(old() == 1004);
      else
        CHECK(get_outcome(r) == 4);
      CHECK(n.peek() == 1);
    }
  }
  NO_TRACKED_LEFT();
}
// a task whose function, arguments or result fail while it runs
SCENARIO(C22, task_call) {
  init();
  {
    const int m = mc::choose(8), how = mc::choose(3);
    mc::ghost n, seen;
    auto fn = [n](Bomb a, const Bomb &b) {
      n.bump();
      return Bomb(a.get() * 10 + b.get());
    };
    pc::packaged_task<Bomb(Bomb, const Bomb &)> t(fn);
    pc::future<Bomb> f = t.get_future();
    f.notify([seen] { seen.bump(); });
    Bomb a(1), b(2);
    fuse() = m;
    const int o = outcome_of([&] {
      if (how == 0)
        t(a, b);
      else
        t(std::move(a), b);
      return 0;
    });
    fuse() = 0;
    CHECK(o == 0 || o == BOOM, "(%d)", o);
    CHECK(b.get() == 2);
    if (o && how == 2) { // it may be run again if it did not run
      const int o2 = outcome_of([&] {
        t(Bomb(1), b);
        return 0;
      });
      CHECK(o2 == 0 || o2 == SATISFIED, "(%d)", o2);
      CHECK(n.peek() <= 1);
    }
    {
      auto gone = std::move(t);
    }
    CHECK(f.is_ready() && seen.peek() == 1);
    const int r = get_outcome(f);
    mc::outcome("%d %d", o, r);
    CHECK(r == 12 || r == BOOM || (o && r == BROKEN), "(%d)", r);
    if (r == 12)
      CHECK(n.peek() == 1);
  }
  NO_TRACKED_LEFT();
}

// ---------------------------------------------------------------- executors and notifications that throw
struct texec {
  Queue *q;
  int mode; // 0: takes the task, 1: throws before taking it, 2: throws after taking it
};
static void post(texec e, pc::unique_function<void()> f) {
  if (e.mode == 1)
    throw test_error{88};
  e.q->q.push_back(std::move(f));
  if (e.mode == 2)
    throw test_error{88};
}
namespace portable_concurrency {
template <> struct is_executor<texec> : std::true_type {};
} // namespace portable_concurrency
constexpr int NOPOST = EXC - 88;

// some of the observers of one result fail; the others and the waiters are served, in whatever order they are attached
template <bool SH> static void observers(bool race) {
  init();
  {
    using Fut = std::conditional_t<SH, pc::shared_future<Tracked>, pc::future<Tracked>>;
    const int bad = mc::choose(4), mode = 1 + mc::choose(2), how = mc::choose(3), pos = mc::choose(3);
    Queue q;
    auto x = pc::make_promise<Tracked>();
    mc::ghost n[3], m;
    Fut f(std::move(x.second));
    pc::timed_waiter w;
    pc::future<int> r;
    auto attach_bad = [&] {
      switch (bad) {
      case 0:
        f.notify(texec{&q, mode}, [m] { m.bump(); });
        break;
      case 1:
        f.notify([m] {
          m.bump();
          throw test_error{88};
        });
        break;
      case 2:
        if constexpr (SH)
          r = f.then(texec{&q, mode}, [m](pc::shared_future<Tracked>) {
            m.bump();
            return 1004;
          });
        else
          f.notify(texec{&q, mode}, [m] { m.bump(); });
        break;
      case 3:
        if constexpr (SH)
          r = f.next(texec{&q, mode}, [m](const Tracked &) {
            m.bump();
            return 1004;
          });
        else
          f.notify(texec{&q, mode}, [m] { m.bump(); });
        break;
      }
    };
    for (int i = 0; i < 3; i++) {
      if (i == pos)
        attach_bad();
      if (i == 1)
        w = pc::timed_waiter(f);
      f.notify([c = n[i]] { c.bump(); });
    }
    mc::ghost woke;
    int o;
    {
      thr t;
      if (race)
        t = thr([&] {
          f.wait();
          woke.bump();
        });
      o = outcome_of([&] {
        if (how == 0)
          x.first.set_value(Tracked(1));
        else if (how == 1)
          x.first.set_exception(err(1));
        else
          x.first.set_value(Tracked(1));
        return 0;
      });
    }
    CHECK(o == NOPOST, "the failure of an observer did not reach the caller (%d)", o);
    if (race)
      CHECK(woke.peek() == 1);
    for (int i = 0; i < 3; i++)
      CHECK(n[i].peek() == 1, "observer %d ran %ld times", i, n[i].peek());
    CHECK(w.wait_for(std::chrono::seconds(0)) == pc::future_status::ready);
    q.run_all();
    if (bad == 1)
      CHECK(m.peek() == 1);
    else if (!r.valid())
      CHECK(m.peek() == (mode == 2 ? 1 : 0));
    else {
      const int ro = get_outcome(r);
      const int good = bad == 3 && how == 1 ? EXC - 1 : 4;
      CHECK(ro == (mode == 2 ? good : BROKEN), "(%d)", ro);
      CHECK(m.peek() == (ro == 4));
    }
    CHECK(outcome_of([&] {
            x.first.set_value(Tracked(2));
            return 0;
          }) == SATISFIED);
    CHECK(get_outcome(f) == (how == 1 ? EXC - 1 : 1));
  }
  NO_TRACKED_LEFT();
}
SCENARIO(C22, observers) { observers<false>(false); }
SCENARIO(C22, observers_shared) { observers<true>(false); }
SCENARIO(C22, observers_waiter, o.preempt = 2; o.preempt_max = 4) { observers<false>(true); }
SCENARIO(C22, observers_waiter_shared, o.preempt = 2; o.preempt_max = 4) { observers<true>(true); }

// any subset of the observers fails
template <bool SH> static void failing_subset() {
  init();
  {
    using Fut = std::conditional_t<SH, pc::shared_future<Tracked>, pc::future<Tracked>>;
    constexpr int N = 4;
    const int mask = mc::choose(1 << N), how = mc::choose(2), kindo = mc::choose(2);
    Queue q;
    mc::ghost n[N];
    pc::timed_waiter w;
    int o;
    {
      auto x = pc::make_promise<Tracked>();
      Fut f(std::move(x.second));
      for (int i = 0; i < N; i++) {
        if (i == 2)
          w = pc::timed_waiter(f);
        if (kindo == 1 && (mask >> i & 1))
          f.notify(texec{&q, 1 + i % 2}, [c = n[i]] { c.bump(); });
        else
          f.notify([c = n[i], fail = mask >> i & 1] {
            c.bump();
            if (fail)
              throw test_error{88};
          });
      }
      o = outcome_of([&] {
        if (how == 1)
          x.first.set_exception(err(1));
        else
          x.first.set_value(Tracked(1));
        return 0;
      });
      CHECK(o == (mask ? NOPOST : 0), "the failure of an observer did not reach the caller (%d)", o);
      CHECK(w.wait_for(std::chrono::seconds(0)) == pc::future_status::ready);
      q.run_all();
      for (int i = 0; i < N; i++) {
        const int want = kindo == 1 && (mask >> i & 1) && i % 2 == 0 ? 0 : 1;
        CHECK(n[i].peek() == want, "observer %d ran %ld times (failing: %x)", i, n[i].peek(), mask);
      }
      CHECK(get_outcome(f) == (how == 1 ? EXC - 1 : 1));
    }
  }
  NO_TRACKED_LEFT();
}
SCENARIO(C22, failing_subset) { failing_subset<false>(); }
SCENARIO(C22, failing_subset_shared) { failing_subset<true>(); }

// attached to a ready result, or a task that cannot be posted: the caller gets the exception, nothing is left behind
SCENARIO(C22, post_direct) {
  init();
  {
    const int op = mc::choose(6), mode = 1 + mc::choose(2);
    Queue q;
    auto x = pc::make_promise<Tracked>();
    mc::ghost n, m;
    x.second.notify([n] { n.bump(); });
    pc::shared_future<Tracked> s = x.second.share();
    x.first.set_value(Tracked(1));
    pc::future<int> r;
    const int o = outcome_of([&] {
      switch (op) {
      case 0:
        s.notify(texec{&q, mode}, [m] { m.bump(); });
        break;
      case 1:
        r = s.then(texec{&q, mode}, [m, t = Tracked(55)](pc::shared_future<Tracked>) {
          m.bump();
          return 1004;
        });
        break;
      case 2:
        r = s.next(texec{&q, mode}, [m, t = Tracked(55)](const Tracked &) {
          m.bump();
          return 1004;
        });
        break;
      case 3:
        r = pc::async(texec{&q, mode}, [m, t = Tracked(55)] {
          m.bump();
          return 1004;
        });
        break;
      case 4:
        s.notify([m] { throw test_error{88}; });
        break;
      case 5:
        r = s.then(texec{&q, mode}, [m, t = Tracked(55)](pc::promise<int> p, pc::shared_future<Tracked>) {
          m.bump();
          p.set_value(1004);
        });
        break;
      }
      return 0;
    });
    CHECK(o == NOPOST, "(%d)", o);
    CHECK(!r.valid());
    q.run_all();
    // a future that was never returned: its function need not run, a notification that was taken does
    if (op == 0)
      CHECK(m.peek() == (mode == 2));
    else
      CHECK(m.peek() == 0);
    CHECK(n.peek() == 1);
    if (op != 5)
      CHECK(get_outcome(s) == 1);
  }
  NO_TRACKED_LEFT();
}
// packaged tasks and unwrapping: completing them notifies a failing observer
SCENARIO(C22, task_observer) {
  init();
  {
    const int kindof = mc::choose(4), mode = 1 + mc::choose(2), throws = mc::choose(2), pos = mc::choose(2);
    Queue q;
    mc::ghost n, m, runs;
    auto held = std::make_shared<int>(1);
    std::weak_ptr<int> cap = held;
    auto in = pc::make_promise<Tracked>();
    auto body = [&](auto &t, auto &f) {
      if (pos)
        f.notify([n] { n.bump(); });
      f.notify(texec{&q, mode}, [m] { m.bump(); });
      if (!pos)
        f.notify([n] { n.bump(); });
      const int o = outcome_of([&] {
        t();
        return 0;
      });
      if (kindof >= 2 && !throws && kindof == 3) {
        CHECK(o == 0 && !f.is_ready());
        const int o2 = outcome_of([&] {
          in.first.set_value(Tracked(1));
          return 0;
        });
        CHECK(o2 == NOPOST, "(%d)", o2);
      } else
        CHECK(o == NOPOST, "the failure of the observer did not reach the caller (%d)", o);
      CHECK(f.is_ready() && n.peek() == 1, "an observer is lost");
      CHECK(cap.expired(), "the function is kept although it was called");
      CHECK(outcome_of([&] { t(); return 0; }) == SATISFIED, "the task can be called again");
      q.run_all();
      CHECK(m.peek() == (mode == 2));
      CHECK(get_outcome(f) == (throws ? EXC - 5 : vid<Tracked>(1)) || kindof == 1, "wrong result");
      CHECK(runs.peek() == 1);
    };
    if (kindof == 0) {
      pc::packaged_task<Tracked()> t([&, held = std::move(held)] {
        runs.bump();
        if (throws)
          throw test_error{5};
        return Tracked(1);
      });
      auto f = t.get_future();
      body(t, f);
    } else if (kindof == 1) {
      pc::packaged_task<void()> t([&, held = std::move(held)] {
        runs.bump();
        if (throws)
          throw test_error{5};
      });
      auto f = t.get_future();
      body(t, f);
    } else {
      if (kindof == 2)
        in.first.set_value(Tracked(1));
      pc::packaged_task<pc::future<Tracked>()> t([&, held = std::move(held)] {
        runs.bump();
        if (throws)
          throw test_error{5};
        return std::move(in.second);
      });
      auto f = t.get_future();
      body(t, f);
    }
  }
  NO_TRACKED_LEFT();
}
// the same for results without a value of their own: void and references, which are unwrapped through other code
template <typename T> static void unwrap_observer() {
  init();
  {
    const int mode = 1 + mc::choose(2), ready = mc::choose(2);
    Queue q;
    mc::ghost n, m;
    auto in = pc::make_promise<T>();
    if (ready)
      set_id<T>(in.first, 1);
    pc::packaged_task<pc::future<T>()> t([&] { return std::move(in.second); });
    pc::future<T> f = t.get_future();
    f.notify([n] { n.bump(); });
    f.notify(texec{&q, mode}, [m] { m.bump(); });
    int o = outcome_of([&] {
      t();
      return 0;
    });
    if (!ready) {
      CHECK(o == 0);
      o = outcome_of([&] {
        set_id<T>(in.first, 1);
        return 0;
      });
    }
    CHECK(o == NOPOST, "(%d)", o);
    CHECK(f.is_ready() && n.peek() == 1);
    q.run_all();
    CHECK(m.peek() == (mode == 2));
    CHECK(get_outcome(f) == vid<T>(1));
  }
  NO_TRACKED_LEFT();
}
SCENARIO(C22, unwrap_observer_void) { unwrap_observer<void>(); }
SCENARIO(C22, unwrap_observer_ref) { unwrap_observer<int &>(); }
SCENARIO(C22, unwrap_observer_tracked) { unwrap_observer<Tracked>(); }
// combined futures notified by one failing input among others
SCENARIO(C22, combinators) {
  init();
  {
    const int any = mc::choose(2), mode = 1 + mc::choose(2), order = mc::choose(2), pos = mc::choose(2);
    Queue q;
    mc::ghost m, n;
    auto a = pc::make_promise<Tracked>();
    auto b = pc::make_promise<Tracked>();
    auto check = [&](auto f) {
      if (pos)
        f.notify([n] { n.bump(); });
      f.notify(texec{&q, mode}, [m] { m.bump(); });
      if (!pos)
        f.notify([n] { n.bump(); });
      auto &first = order ? a.first : b.first;
      auto &second = order ? b.first : a.first;
      const int o1 = outcome_of([&] {
        first.set_value(Tracked(1));
        return 0;
      });
      CHECK(o1 == (any ? NOPOST : 0), "(%d)", o1);
      CHECK(f.is_ready() == (any == 1));
      const int o2 = outcome_of([&] {
        second.set_value(Tracked(1));
        return 0;
      });
      CHECK(o2 == (any ? 0 : NOPOST), "(%d)", o2);
      CHECK(f.is_ready() && n.peek() == 1);
      q.run_all();
      CHECK(m.peek() == (mode == 2));
      f.get();
    };
    if (any)
      check(pc::when_any(std::move(a.second), std::move(b.second)));
    else
      check(pc::when_all(std::move(a.second), std::move(b.second)));
  }
  NO_TRACKED_LEFT();
}
