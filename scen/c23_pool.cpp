// C23: re-entrancy in the thread pool, and callbacks re-entering while other threads use the same result.
#include "common.h"

// does f when it dies
template <typename F> struct death {
  F f;
  bool armed = true;
  explicit death(F x) : f(std::move(x)) {}
  death(death &&o) noexcept : f(std::move(o.f)), armed(std::exchange(o.armed, false)) {}
  ~death() {
    if (armed)
      f();
  }
};
template <typename F> static death<F> on_death(F f) { return death<F>(std::move(f)); }

// ---------------------------------------------------------------- the pool
// a task, or the destructor of what it captured, posts to the same pool (also with a result), completes or breaks promises
static void pool_post(int workers, int lo, int hi) {
  init();
  {
    const int what = lo + mc::choose(hi - lo), from_dtor = mc::choose(2), end = mc::choose(3);
    mc::ghost first, second, third;
    auto x = pc::make_promise<Tracked>();
    pc::future<Tracked> got = x.second.then([third](pc::future<Tracked> f) {
      third.add();
      return f.get();
    });
    pc::future<Tracked> inner;
    {
      pc::static_thread_pool pool(static_cast<size_t>(workers));
      auto ex = pool.executor();
      {
        auto again = [&, ex, p = std::make_shared<pc::promise<Tracked>>(std::move(x.first))]() mutable {
          switch (what) {
          case 0:
            post(ex, [second, t = Tracked(5)] {
              CHECK(t.get() == 5);
              second.add();
            });
            break;
          case 1:
            inner = pc::async(ex, [second] {
              second.add();
              return Tracked(2);
            });
            break;
          case 2:
            p->set_value(Tracked(1));
            break;
          case 3: {
            pc::promise<Tracked> gone(std::move(*p));
            break;
          }
          case 4:
            post(ex, [p] { p->set_value(Tracked(1)); });
            break;
          case 5:
            pool.stop();
            break;
          }
          p = nullptr;
        };
        if (from_dtor)
          post(ex, [first, d = on_death(std::move(again))]() mutable { first.add(); });
        else
          post(ex, [first, a = std::move(again)]() mutable {
            first.add();
            a();
          });
      }
      if (end == 0 && (what == 2 || what == 3 || what == 4)) {
        // consequences of the task do not wait for another task or for shutdown
        const int o = get_outcome(got);
        CHECK(o == (what == 3 ? BROKEN : 1) || o == BROKEN, "(%d)", o);
        if (what == 2)
          CHECK(o == 1, "(%d)", o);
      }
      if (end == 1)
        pool.wait();
      else if (end == 2)
        pool.stop();
    }
    CHECK(first.peek() <= 1 && second.peek() <= 1 && third.peek() <= 1);
    if (end == 1) {
      CHECK(first.peek() == 1);
      if (!from_dtor && (what == 2 || what == 3))
        CHECK(third.peek() == 1);
    }
    if (got.valid())
      CHECK(got.is_ready(), "a future is not ready although the pool is gone");
    if (inner.valid()) {
      CHECK(inner.is_ready());
      const int o = get_outcome(inner);
      CHECK(o == (second.peek() ? 2 : BROKEN), "(%d)", o);
    }
  }
  NO_TRACKED_LEFT();
}
SCENARIO(C23, pool_post, o.preempt = 3; o.preempt_max = 5) { pool_post(1, 0, 2); }
SCENARIO(C23, pool_complete, o.preempt = 3; o.preempt_max = 5) { pool_post(1, 2, 4); }
SCENARIO(C23, pool_complete_later, o.preempt = 3; o.preempt_max = 5) { pool_post(1, 4, 5); }
SCENARIO(C23, pool_stop, o.preempt = 3; o.preempt_max = 5) { pool_post(1, 5, 6); }
SCENARIO(C23, pool2_post, o.preempt = 2; o.preempt_max = 3) { pool_post(2, 0, 2); }
SCENARIO(C23, pool2_complete, o.preempt = 2; o.preempt_max = 3) { pool_post(2, 2, 6); }

// chains of tasks on one pool: every stage is posted by the previous one, also when it is dropped at shutdown
SCENARIO(C23, pool_chain, o.preempt = 3; o.preempt_max = 4) {
  init();
  {
    const int end = mc::choose(4);
    mc::ghost a, b;
    pc::future<int> r;
    {
      pc::static_thread_pool pool(1);
      auto ex = pool.executor();
      r = pc::async(ex, [a, t = Tracked(1)] {
            a.add();
            return 1;
          })
              .then(ex, [b, t = Tracked(2)](pc::future<int> f) {
                b.add();
                return f.get() + 1000;
              });
      if (end == 0)
        CHECK(get_outcome(r) == 1);
      else if (end == 1)
        pool.wait();
      else if (end == 2)
        pool.stop();
    }
    CHECK(a.peek() <= 1 && b.peek() <= 1);
    if (r.valid()) {
      CHECK(r.is_ready(), "a stage is lost");
      const int o = get_outcome(r);
      CHECK(o == 1 || o == BROKEN, "(%d)", o);
      CHECK((o == 1) == (b.peek() == 1 && a.peek() == 1));
    }
  }
  NO_TRACKED_LEFT();
}
// posting to a pool that no longer accepts tasks: the task is destroyed in the caller, and may post again
SCENARIO(C23, pool_closed, o.preempt = 3; o.preempt_max = 5) {
  init();
  {
    const int what = mc::choose(3), workers = mc::choose(2), late = mc::choose(2);
    mc::ghost died, broken;
    {
      pc::static_thread_pool pool(static_cast<size_t>(workers));
      auto ex = pool.executor();
      thr t;
      if (late)
        t = thr([&] { pool.stop(); });
      else
        pool.stop();
      auto x = pc::make_promise<int>();
      x.second.notify([broken] { broken.add(); });
      pc::future<int> f = std::move(x.second);
      auto p = std::make_shared<pc::promise<int>>(std::move(x.first));
      auto d = [ex, died, what, p]() mutable {
        died.add();
        if (what == 0)
          post(ex, [p] {});
        else if (what == 1)
          p->set_exception(err(1));
        p = nullptr;
      };
      p = nullptr;
      post(ex, [x = on_death(std::move(d))] {});
      t = thr();
      pool.stop();
      (void)f;
      if (!late && what != 0)
        CHECK(died.peek() == 1 && broken.peek() == 1, "a rejected task is kept");
      if (!late)
        CHECK(f.is_ready());
    }
    CHECK(died.peek() == 1);
  }
  NO_TRACKED_LEFT();
}
// tasks left in the queue die with the pool; what they captured may post to it
SCENARIO(C23, pool_dropped) {
  init();
  {
    const int what = mc::choose(4), n = 1 + mc::choose(3);
    mc::ghost died;
    std::vector<pc::future<int>> f;
    {
      pc::static_thread_pool pool(0);
      auto ex = pool.executor();
      for (int i = 0; i < n; i++) {
        auto d = on_death([ex, died, what, &pool] {
          died.add();
          if (what == 0)
            post(ex, [died] {});
          else if (what == 1)
            pool.stop();
          else if (what == 2)
            pc::async(ex, [] { return 1; }).detach();
        });
        f.push_back(pc::async(ex, [d = std::move(d)] { return 1; }));
        f.back() = f.back().then(ex, [](pc::future<int> v) { return v.get(); });
      }
    }
    CHECK(died.peek() == n, "(%ld)", died.peek());
    for (auto &x : f)
      CHECK(x.is_ready() && get_outcome(x) == BROKEN);
  }
  NO_TRACKED_LEFT();
}

// ---------------------------------------------------------------- callbacks racing with other threads
// Completion in one thread runs callbacks that drop, attach, complete; meanwhile this thread does the same from outside.
enum { R_NOTIFY, R_THEN, R_DROP, R_COMPLETE, R_GET, R_DETACH, R_N };
struct Sh {
  pc::shared_future<Tracked> in, out; // used by the callback, used by the other thread
  pc::promise<int> q{pc::make_promise<int>().first};
  pc::shared_future<int> g;
  mc::ghost attached, ran, cb;
};
static void racing(int lo, int hi) {
  init();
  {
    const int a = lo + mc::choose(hi - lo), b = mc::choose(R_N), ctx = mc::choose(3), how = mc::choose(2);
    Sh *s = new Sh;
    auto x = pc::make_promise<Tracked>();
    auto y = pc::make_promise<int>();
    s->q = std::move(y.first);
    s->g = y.second.share();
    pc::future<int> after = s->g.next([](const int &v) { return v + 1; });
    s->in = x.second.share();
    s->out = s->in;
    mc::ghost n0, n1, seen;
    s->in.notify([n0] { n0.add(); });
    auto cb = [s, a] {
      s->cb.add();
      switch (a) {
      case R_NOTIFY: {
        mc::ghost now;
        s->in.notify([now, r = s->ran] {
          now.bump();
          r.add();
        });
        CHECK(now.peek() == 1, "attached from a callback but not run");
        s->attached.add();
        break;
      }
      case R_THEN: {
        auto f = s->in.next([](const Tracked &t) { return t.get(); });
        CHECK(f.is_ready());
        break;
      }
      case R_DROP:
        s->in = pc::shared_future<Tracked>();
        break;
      case R_COMPLETE:
        s->q.set_value(4);
        break;
      case R_GET: {
        int o = get_outcome(s->in);
        CHECK(o == 1 || o == EXC - 1);
        break;
      }
      case R_DETACH:
        s->in.detach();
        break;
      }
    };
    pc::future<int> r;
    if (ctx == 0)
      s->in.notify(cb);
    else if (ctx == 1)
      r = s->in.then([cb](pc::shared_future<Tracked> f) {
        cb();
        return get_outcome(f);
      });
    else {
      auto d = std::make_shared<death<decltype(cb)>>(cb);
      s->in.notify([d = std::move(d)] {});
    }
    s->in.notify([n1] { n1.add(); });
    {
      thr t([p = std::move(x.first), how]() mutable {
        if (how == 0)
          p.set_value(Tracked(1));
        else
          p.set_exception(err(1));
      });
      switch (b) {
      case R_NOTIFY:
        s->out.notify([seen] { seen.add(); });
        break;
      case R_THEN: {
        auto f = s->out.then([seen](pc::shared_future<Tracked>) {
          seen.add();
          return 1;
        });
        CHECK(f.get() == 1);
        break;
      }
      case R_DROP:
        s->out = pc::shared_future<Tracked>();
        break;
      case R_COMPLETE:
        if (a == R_COMPLETE)
          s->out.wait();
        else
          s->q.set_value(4);
        break;
      case R_GET: {
        int o = get_outcome(s->out);
        CHECK(o == (how == 0 ? 1 : EXC - 1));
        break;
      }
      case R_DETACH:
        s->out = s->out.detach();
        break;
      }
    }
    CHECK(n0.peek() == 1 && n1.peek() == 1 && s->cb.peek() == 1, "a callback is lost (%ld %ld %ld)", n0.peek(), n1.peek(), s->cb.peek());
    CHECK(s->ran.peek() == s->attached.peek());
    if (b == R_NOTIFY || b == R_THEN)
      CHECK(seen.peek() == 1);
    if (r.valid())
      CHECK(r.is_ready());
    if (a == R_COMPLETE || b == R_COMPLETE) {
      if (a == R_COMPLETE || b == R_COMPLETE)
        CHECK(after.is_ready() && after.get() == 5);
    }
    delete s;
  }
  NO_TRACKED_LEFT();
}
SCENARIO(C23, racing_attach, o.preempt = 2; o.preempt_max = 4) { racing(R_NOTIFY, R_DROP); }
SCENARIO(C23, racing_drop, o.preempt = 3; o.preempt_max = 5) { racing(R_DROP, R_COMPLETE); }
SCENARIO(C23, racing_complete, o.preempt = 2; o.preempt_max = 4) { racing(R_COMPLETE, R_GET); }
SCENARIO(C23, racing_use, o.preempt = 2; o.preempt_max = 4) { racing(R_GET, R_N); }

// dropping the last future releases a capture whose destructor completes another result with waiters and continuations
SCENARIO(C23, cascade, o.preempt = 3; o.preempt_max = -1) {
  init();
  {
    const int how = mc::choose(3);
    auto x = pc::make_promise<int>();
    auto y = pc::make_promise<int>();
    mc::ghost n;
    pc::future<int> h = y.second.then([n](pc::future<int> f) {
      n.add();
      return get_outcome(f);
    });
    auto p = std::make_shared<pc::promise<int>>(std::move(y.first));
    pc::future<int> f = x.second.next([d = on_death([p] { p->set_value(1003); })](int v) { return v; });
    p = nullptr;
    {
      thr t([q = std::move(x.first), how]() mutable {
        if (how == 0)
          q.set_value(1);
        else if (how == 1) {
          pc::promise<int> gone(std::move(q));
        }
      });
      thr u([g = std::move(f)]() mutable { g = pc::future<int>(); });
      CHECK(h.get() == 3);
    }
    CHECK(n.peek() == 1);
  }
  NO_TRACKED_LEFT();
}
