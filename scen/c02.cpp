// C02: blocked waiters always wake up, and never before the result is there.
#include "common.h"

// how the result comes about: value, exception, producer gone
template <typename T> static void finish(pc::promise<T> p, int how, mc::ghost done) {
  done.set(1);
  switch (how) {
  case 0:
    set_id<T>(p, 1);
    break;
  case 1:
    p.set_exception(err(2));
    break;
  default: {
    pc::promise<T> gone(std::move(p));
  }
  }
}
template <typename T> static int expect(int how) { return how == 0 ? vid<T>(1) : how == 1 ? EXC - 2 : BROKEN; }

template <typename F> static void wait_on(F &f, int op, int want, mc::ghost done) {
  if (op == 0) {
    f.wait();
    CHECK(done.get() == 1, "wait() returned before the result was supplied");
    CHECK(f.is_ready());
    f.wait();
  }
  int o = get_outcome(f);
  CHECK(done.get() == 1, "get() returned before the result was supplied");
  CHECK(o == want, "(got %d want %d)", o, want);
}

template <typename T> static void one_waiter(bool alloc) {
  init();
  Arena *a = make_arena(0);
  int how = mc::choose(3), op = mc::choose(2);
  {
    mc::ghost done;
    auto x = alloc ? pc::make_promise<T>(arena_alloc<char>(a)) : pc::make_promise<T>();
    thr t([p = std::move(x.first), how, done]() mutable { finish<T>(std::move(p), how, done); });
    wait_on(x.second, op, expect<T>(how), done);
  }
  CHECK(a->blocks == 0);
}
SCENARIO(C02, one_int, o.preempt = -1; o.env = 1; o.env_max = 2) { one_waiter<int>(false); }
SCENARIO(C02, one_void, o.preempt = -1; o.env = 1; o.env_max = 2) { one_waiter<void>(false); }
SCENARIO(C02, one_ref, o.preempt = 3; o.env = 1; o.env_max = 2; o.preempt_max = -1) { one_waiter<int &>(false); }
SCENARIO(C02, one_alloc, o.preempt = -1; o.env = 1; o.env_max = 2) { one_waiter<int>(true); }

// several waiters on copies of a shared_future
template <typename T> static void many_waiters(int n, bool alloc, int hows) {
  init();
  Arena *a = make_arena(0);
  int how = mc::choose(hows), op = mc::choose(2);
  {
    mc::ghost done;
    auto x = alloc ? pc::make_promise<T>(arena_alloc<char>(a)) : pc::make_promise<T>();
    pc::shared_future<T> s = x.second.share();
    std::vector<thr> ts;
    for (int i = 1; i < n; i++)
      ts.emplace_back([s, op, how, done]() mutable { wait_on(s, op, expect<T>(how), done); });
    ts.emplace_back([p = std::move(x.first), how, done]() mutable { finish<T>(std::move(p), how, done); });
    wait_on(s, op, expect<T>(how), done);
  }
  CHECK(a->blocks == 0);
}
SCENARIO(C02, two_shared, o.preempt = 3; o.preempt_max = -1; o.env = 1) { many_waiters<int>(2, false, 3); }
SCENARIO(C02, two_shared_void, o.preempt = 3; o.preempt_max = -1; o.env = 1) { many_waiters<void>(2, false, 1); }
SCENARIO(C02, two_shared_alloc, o.preempt = 3; o.preempt_max = -1; o.env = 1) { many_waiters<int>(2, true, 1); }
SCENARIO(C02, three_shared, o.preempt = 2; o.preempt_max = -1) { many_waiters<int>(3, false, 1); }

// the same shared_future object used by several threads
SCENARIO(C02, same_object, o.preempt = 3; o.preempt_max = -1; o.env = 1) {
  init();
  mc::ghost done;
  auto x = pc::make_promise<std::string>();
  const pc::shared_future<std::string> s = x.second.share();
  thr w([&s, done] {
    s.wait();
    CHECK(done.get() == 1 && s.is_ready());
  });
  thr t([p = std::move(x.first), done]() mutable { finish<std::string>(std::move(p), 0, done); });
  s.wait();
  CHECK(done.get() == 1);
  CHECK(kind<std::string>::id(s.get()) == 1);
}

// a waiter together with notifications and continuations on the same future
SCENARIO(C02, wait_with_callbacks, o.preempt = 3; o.preempt_max = -1; o.env = 1) {
  init();
  mc::ghost done, n;
  auto x = pc::make_promise<int>();
  pc::shared_future<int> s = x.second.share();
  s.notify([n] { n.bump(); });
  pc::future<int> g = s.next([](int v) { return v + 1; });
  thr w([g = std::move(g), done]() mutable {
    int o = get_outcome(g);
    CHECK(done.get() == 1 && o == 2);
  });
  thr t([p = std::move(x.first), done]() mutable { finish<int>(std::move(p), 0, done); });
  s.wait();
  CHECK(done.get() == 1 && s.is_ready());
  CHECK(get_outcome(s) == 1);
  w.join();
  t.join();
  CHECK(n.peek() == 1);
}

// every kind of producer
SCENARIO(C02, packaged_task, o.preempt = -1; o.env = 1; o.env_max = 2) {
  init();
  int how = mc::choose(3);
  mc::ghost done;
  pc::packaged_task<int()> t([how, done] {
    done.set(1);
    if (how == 1)
      throw test_error{2};
    return 1001;
  });
  auto f = t.get_future();
  thr th([t = std::move(t), how, done]() mutable {
    if (how == 2) {
      done.set(1);
      pc::packaged_task<int()> gone(std::move(t));
    } else
      t();
  });
  wait_on(f, mc::choose(2), expect<int>(how), done);
}
SCENARIO(C02, pool_async, o.preempt = 3; o.preempt_max = -1; o.env = 1) {
  init();
  mc::ghost done;
  int op = mc::choose(2);
  pc::static_thread_pool pool(1);
  auto f = pc::async(pool.executor(), [done] {
    done.set(1);
    return 1001;
  });
  wait_on(f, op, 1, done);
}
SCENARIO(C02, continuation, o.preempt = 3; o.preempt_max = -1; o.env = 1) {
  init();
  mc::ghost done, run;
  int how = mc::choose(3), op = mc::choose(2), kindc = mc::choose(3);
  auto x = pc::make_promise<int>();
  pc::future<int> f;
  if (kindc == 0)
    f = x.second.then([run](pc::future<int> p) { run.set(1); return p.get(); });
  else if (kindc == 1)
    f = x.second.next([run](int v) { run.set(1); return v; });
  else
    f = x.second.then([run](pc::promise<int> p, pc::future<int> v) {
      run.set(1);
      try {
        p.set_value(v.get());
      } catch (...) {
        p.set_exception(std::current_exception());
      }
    });
  thr t([p = std::move(x.first), how, done]() mutable { finish<int>(std::move(p), how, done); });
  wait_on(f, op, expect<int>(how), done);
  CHECK(run.get() == (kindc == 1 && how != 0 ? 0 : 1));
}
SCENARIO(C02, unwrapped, o.preempt = 2; o.preempt_max = -1; o.env = 1) {
  init();
  mc::ghost done;
  int how = mc::choose(3), op = mc::choose(2);
  auto in = pc::make_promise<int>();
  auto x = pc::make_promise<void>();
  pc::future<int> f = x.second.next([g = std::move(in.second)]() mutable { return std::move(g); });
  thr a([p = std::move(x.first)]() mutable { p.set_value(); });
  thr b([p = std::move(in.first), how, done]() mutable { finish<int>(std::move(p), how, done); });
  wait_on(f, op, expect<int>(how), done);
}
SCENARIO(C02, all_of_two, o.preempt = 3; o.preempt_max = -1; o.env = 1) {
  init();
  mc::ghost d1, d2;
  auto a = pc::make_promise<int>();
  auto b = pc::make_promise<int>();
  auto f = pc::when_all(std::move(a.second), std::move(b.second));
  thr t1([p = std::move(a.first), d1]() mutable { finish<int>(std::move(p), 0, d1); });
  thr t2([p = std::move(b.first), d2]() mutable { finish<int>(std::move(p), 2, d2); });
  f.wait();
  CHECK(d1.get() == 1 && d2.get() == 1, "when_all future ready early");
  CHECK(f.is_ready());
}
SCENARIO(C02, any_of_two, o.preempt = 3; o.preempt_max = -1; o.env = 1) {
  init();
  mc::ghost d1, d2;
  auto a = pc::make_promise<int>();
  auto b = pc::make_promise<int>();
  auto f = pc::when_any(std::move(a.second), std::move(b.second));
  thr t1([p = std::move(a.first), d1]() mutable { finish<int>(std::move(p), 0, d1); });
  thr t2([p = std::move(b.first), d2]() mutable { finish<int>(std::move(p), 2, d2); });
  f.wait();
  CHECK(d1.get() == 1 || d2.get() == 1, "when_any future ready early");
  CHECK(f.is_ready());
}
// the result may arrive in the middle of any number of waits of one thread
SCENARIO(C02, ping_pong, o.preempt = 3; o.preempt_max = -1; o.env = 1) {
  init();
  auto a = pc::make_promise<int>();
  auto b = pc::make_promise<int>();
  thr t([p = std::move(a.first), f = std::move(b.second)]() mutable {
    p.set_value(1);
    CHECK(f.get() == 2);
  });
  CHECK(a.second.get() == 1);
  b.first.set_value(2);
}
// waiter holds the only future and another thread waits on a continuation of the same shared state
SCENARIO(C02, wait_and_drop, o.preempt = 3; o.preempt_max = -1; o.env = 1) {
  init();
  mc::ghost done;
  auto x = pc::make_promise<Tracked>();
  pc::shared_future<Tracked> s = x.second.share();
  thr w([s, done]() mutable {
    s.wait();
    CHECK(done.get() == 1);
    s = pc::shared_future<Tracked>();
  });
  thr t([p = std::move(x.first), done]() mutable { finish<Tracked>(std::move(p), 0, done); });
  s.wait();
  CHECK(done.get() == 1);
  s = pc::shared_future<Tracked>();
  w.join();
  t.join();
  NO_TRACKED_LEFT();
}
