// C03: observing readiness makes the whole result visible, without data races.
#include "common.h"

// Memory the producer writes before it supplies the result; the checker reports any access of an
// observer that is not ordered after the write.
struct Side {
  int plain = 0;
  std::string text;
};
static void produce(Side &s) {
  s.plain = 17;
  s.text = std::string(30, 'p');
}
static void observe(const Side &s) {
  CHECK(s.plain == 17);
  CHECK(s.text == std::string(30, 'p'));
}
template <typename T> static void complete(pc::promise<T> &p, int how) {
  if (how == 0)
    set_id<T>(p, 1);
  else if (how == 1)
    p.set_exception(err(2));
  else {
    pc::promise<T> gone(std::move(p));
  }
}
template <typename T> static int expect(int how) { return how == 0 ? vid<T>(1) : how == 1 ? EXC - 2 : BROKEN; }

enum { N_OBS = 9 };
// one way of observing readiness; returns whether it observed the future as ready
template <typename T, typename Fut> static void observe_by(Fut &f, int obs, int how, Side &s) {
  const int want = expect<T>(how);
  switch (obs) {
  case 0: { // poll
    bool r1 = f.is_ready();
    if (r1) {
      observe(s);
      CHECK(f.is_ready(), "readiness taken back");
      CHECK(get_outcome(f) == want);
      mc::outcome("ready");
    } else {
      mc::outcome("not ready");
      bool r2 = f.is_ready();
      if (r2) {
        observe(s);
        CHECK(f.is_ready());
      }
    }
    break;
  }
  case 1:
    f.wait();
    observe(s);
    CHECK(f.is_ready());
    CHECK(get_outcome(f) == want);
    break;
  case 2: {
    int o = get_outcome(f);
    observe(s);
    CHECK(o == want);
    break;
  }
  case 3: { // timed wait
    pc::timed_waiter w(f);
    if (w.wait_for(std::chrono::milliseconds(1)) == pc::future_status::ready) {
      observe(s);
      CHECK(f.is_ready());
      CHECK(get_outcome(f) == want);
      mc::outcome("ready");
    } else
      mc::outcome("timeout");
    break;
  }
  case 4: { // notification: the future object stays alive until it ran
    mc::ghost n;
    f.notify([&s, n] {
      observe(s);
      n.bump();
    });
    f.wait();
    break;
  }
  case 5: {
    mc::ghost n;
    auto g = f.then([&s, want, n](Fut h) {
      observe(s);
      CHECK(h.is_ready(), "continuation invoked with a future that is not ready");
      CHECK(get_outcome(h) == want);
      n.bump();
      return 5;
    });
    CHECK(g.get() == 5 && n.peek() == 1);
    observe(s);
    break;
  }
  case 6: {
    auto g = f.then([&s, want](pc::promise<int> p, Fut h) {
      observe(s);
      CHECK(h.is_ready());
      CHECK(get_outcome(h) == want);
      p.set_value(6);
    });
    CHECK(g.get() == 6);
    observe(s);
    break;
  }
  case 7: { // deprecated interface
    if (f.wait_for(std::chrono::milliseconds(1)) == pc::future_status::ready) {
      observe(s);
      CHECK(f.is_ready());
    }
    break;
  }
  case 8: { // continuation of a continuation
    auto g = f.then([](Fut h) { return get_outcome(h); }).next([&s](int o) {
      observe(s);
      return o;
    });
    CHECK(g.get() == want);
    observe(s);
    break;
  }
  }
}
template <typename T> static void unique_obs() {
  init();
  {
    int obs = mc::choose(N_OBS), how = mc::choose(3);
    Side s;
    auto x = pc::make_promise<T>();
    thr t([p = std::move(x.first), how, &s]() mutable {
      produce(s);
      complete<T>(p, how);
    });
    observe_by<T>(x.second, obs, how, s);
  }
  NO_TRACKED_LEFT();
}
SCENARIO(C03, unique_tracked, o.preempt = 3; o.preempt_max = -1) { unique_obs<Tracked>(); }
SCENARIO(C03, unique_void, o.preempt = 3; o.preempt_max = -1) { unique_obs<void>(); }
SCENARIO(C03, unique_ref, o.preempt = 3; o.preempt_max = -1) { unique_obs<int &>(); }
template <typename T> static void shared_obs() {
  init();
  {
    int obs = mc::choose(N_OBS), how = mc::choose(3);
    Side s;
    auto x = pc::make_promise<T>();
    pc::shared_future<T> f = x.second.share();
    thr t([p = std::move(x.first), how, &s]() mutable {
      produce(s);
      complete<T>(p, how);
    });
    observe_by<T>(f, obs, how, s);
  }
  NO_TRACKED_LEFT();
}
SCENARIO(C03, shared_tracked, o.preempt = 3; o.preempt_max = -1) { shared_obs<Tracked>(); }
SCENARIO(C03, shared_void, o.preempt = 3; o.preempt_max = -1) { shared_obs<void>(); }

// two observers of the same result, by different means
template <typename T> static void two_observers(int o1, int o2, int how) {
  init();
  {
    Side s;
    auto x = pc::make_promise<T>();
    pc::shared_future<T> f = x.second.share(), g = f;
    thr t([p = std::move(x.first), how, &s]() mutable {
      produce(s);
      complete<T>(p, how);
    });
    thr o([g = std::move(g), &s, o2, how]() mutable { observe_by<T>(g, o2, how, s); });
    observe_by<T>(f, o1, how, s);
  }
  NO_TRACKED_LEFT();
}
SCENARIO(C03, pair_poll_get, o.preempt = 3; o.preempt_max = -1) { two_observers<Tracked>(0, 2, mc::choose(2)); }
SCENARIO(C03, pair_notify_then, o.preempt = 3; o.preempt_max = -1) { two_observers<Tracked>(4, 5, 0); }
SCENARIO(C03, pair_then_get, o.preempt = 3; o.preempt_max = -1) { two_observers<Tracked>(5, 2, 0); }
SCENARIO(C03, pair_timed_notify, o.preempt = 3; o.preempt_max = -1) { two_observers<Tracked>(3, 4, 0); }
SCENARIO(C03, pair_poll_poll, o.preempt = 3; o.preempt_max = -1) { two_observers<Tracked>(0, 0, mc::choose(2)); }
// every pair of ways
SCENARIO(C03, pairs, o.preempt = 2; o.preempt_max = 4) {
  const int o1 = mc::choose(N_OBS), o2 = mc::choose(N_OBS);
  if (o2 < o1)
    return;
  two_observers<Tracked>(o1, o2, mc::choose(2));
}
// three observers on one result
SCENARIO(C03, triples, o.preempt = 1; o.preempt_max = 2) {
  init();
  {
    const int o1 = mc::choose(N_OBS), o2 = mc::choose(N_OBS), o3 = mc::choose(N_OBS);
    if (o2 < o1 || o3 < o2)
      return;
    Side s;
    auto x = pc::make_promise<Tracked>();
    pc::shared_future<Tracked> f = x.second.share(), g = f, h = f;
    thr t([p = std::move(x.first), &s]() mutable {
      produce(s);
      complete<Tracked>(p, 0);
    });
    thr a([g = std::move(g), &s, o2]() mutable { observe_by<Tracked>(g, o2, 0, s); });
    thr b([h = std::move(h), &s, o3]() mutable { observe_by<Tracked>(h, o3, 0, s); });
    observe_by<Tracked>(f, o1, 0, s);
  }
  NO_TRACKED_LEFT();
}

// producers other than promises
SCENARIO(C03, task, o.preempt = 3; o.preempt_max = -1) {
  init();
  {
    Side s;
    int obs = mc::choose(N_OBS);
    pc::packaged_task<Tracked()> t([&s] {
      produce(s);
      return Tracked(1);
    });
    auto f = t.get_future();
    thr th([t = std::move(t)]() mutable { t(); });
    observe_by<Tracked>(f, obs, 0, s);
  }
  NO_TRACKED_LEFT();
}
SCENARIO(C03, pool, o.preempt = 3; o.preempt_max = -1) {
  init();
  {
    Side s;
    int obs = mc::choose(3);
    pc::static_thread_pool pool(1);
    auto f = pc::async(pool.executor(), [&s] {
      produce(s);
      return Tracked(1);
    });
    observe_by<Tracked>(f, obs, 0, s);
    f = pc::future<Tracked>();
    pool.wait();
  }
  NO_TRACKED_LEFT();
}
SCENARIO(C03, alloc_state, o.preempt = 3; o.preempt_max = -1) {
  init();
  Arena *a = make_arena(0);
  {
    Side s;
    int obs = mc::choose(N_OBS);
    auto x = pc::make_promise<Tracked>(arena_alloc<char>(a));
    thr t([p = std::move(x.first), &s]() mutable {
      produce(s);
      complete<Tracked>(p, 0);
    });
    observe_by<Tracked>(x.second, obs, 0, s);
  }
  CHECK(a->blocks == 0);
  NO_TRACKED_LEFT();
}
// the future of a continuation publishes what the continuation wrote, and what its parent's producer wrote
SCENARIO(C03, through_continuation, o.preempt = 3; o.preempt_max = -1) {
  init();
  {
    Side s, s2;
    int obs = mc::choose(N_OBS), c = mc::choose(4);
    auto x = pc::make_promise<int>();
    pc::future<Tracked> f;
    if (c == 0)
      f = x.second.then([&s, &s2](pc::future<int> v) {
        observe(s);
        produce(s2);
        return Tracked(v.get() - 1000);
      });
    else if (c == 1)
      f = x.second.next([&s, &s2](int v) {
        observe(s);
        produce(s2);
        return Tracked(v - 1000);
      });
    else if (c == 2)
      f = x.second.share().next([&s, &s2](const int &v) {
        observe(s);
        produce(s2);
        return Tracked(v - 1000);
      });
    else
      f = x.second.then([&s, &s2](pc::promise<Tracked> p, pc::future<int> v) {
        observe(s);
        produce(s2);
        p.set_value(Tracked(v.get() - 1000));
      });
    thr t([p = std::move(x.first), &s]() mutable {
      produce(s);
      complete<int>(p, 0);
    });
    observe_by<Tracked>(f, obs, 0, s2);
  }
  NO_TRACKED_LEFT();
}
SCENARIO(C03, through_unwrap, o.preempt = 3; o.preempt_max = -1) {
  init();
  {
    Side s, s2;
    int obs = mc::choose(3);
    bool shared = mc::choose(2);
    auto in = pc::make_promise<Tracked>();
    auto x = pc::make_promise<void>();
    thr b([p = std::move(in.first), &s]() mutable {
      produce(s);
      complete<Tracked>(p, 0);
    });
    if (!shared) {
      pc::future<Tracked> f = x.second.next([g = std::move(in.second)]() mutable { return std::move(g); });
      thr a([p = std::move(x.first), &s2]() mutable {
        produce(s2);
        p.set_value();
      });
      observe_by<Tracked>(f, obs, 0, s);
      if (f.valid() && f.is_ready())
        observe(s2);
    } else {
      pc::shared_future<Tracked> f = x.second.next([g = in.second.share()]() mutable { return g; });
      thr a([p = std::move(x.first), &s2]() mutable {
        produce(s2);
        p.set_value();
      });
      observe_by<Tracked>(f, obs, 0, s);
      if (f.is_ready())
        observe(s2);
    }
  }
  NO_TRACKED_LEFT();
}
// readiness of a combination publishes what the producers of its ready inputs wrote
SCENARIO(C03, through_when_all, o.preempt = 3; o.preempt_max = -1) {
  init();
  {
    Side s1, s2;
    int obs = mc::choose(3);
    auto a = pc::make_promise<Tracked>();
    auto b = pc::make_promise<std::string>();
    auto f = pc::when_all(std::move(a.second), b.second.share());
    thr t1([p = std::move(a.first), &s1]() mutable {
      produce(s1);
      complete<Tracked>(p, 0);
    });
    thr t2([p = std::move(b.first), &s2]() mutable {
      produce(s2);
      complete<std::string>(p, 1);
    });
    if (obs == 0 && !f.is_ready())
      return;
    if (obs == 1)
      f.wait();
    auto r = f.get();
    observe(s1);
    observe(s2);
    CHECK(std::get<0>(r).is_ready() && std::get<1>(r).is_ready());
    CHECK(get_outcome(std::get<0>(r)) == 1);
    CHECK(get_outcome(std::get<1>(r)) == EXC - 2);
  }
  NO_TRACKED_LEFT();
}
SCENARIO(C03, through_when_any, o.preempt = 3; o.preempt_max = -1) {
  init();
  {
    Side s[2];
    int obs = mc::choose(3);
    auto a = pc::make_promise<Tracked>();
    auto b = pc::make_promise<Tracked>();
    auto f = pc::when_any(std::move(a.second), std::move(b.second));
    thr t1([p = std::move(a.first), &s]() mutable {
      produce(s[0]);
      complete<Tracked>(p, 0);
    });
    thr t2([p = std::move(b.first), &s]() mutable {
      produce(s[1]);
      complete<Tracked>(p, 0);
    });
    if (obs == 0 && !f.is_ready())
      return;
    if (obs == 1)
      f.wait();
    auto r = f.get();
    CHECK(r.index < 2);
    observe(s[r.index]);
    auto &in = r.index == 0 ? std::get<0>(r.futures) : std::get<1>(r.futures);
    CHECK(in.is_ready());
    CHECK(get_outcome(in) == 1);
  }
  NO_TRACKED_LEFT();
}
// a chain of continuations on an executor: what stage n wrote is visible in stage n+1
SCENARIO(C03, pool_chain, o.preempt = 3; o.preempt_max = -1) {
  init();
  Side s1, s2;
  pc::static_thread_pool pool(2);
  auto f = pc::async(pool.executor(), [&s1] {
    produce(s1);
    return 1;
  }).next(pool.executor(), [&](int v) {
    observe(s1);
    produce(s2);
    return v + 1;
  });
  CHECK(f.get() == 2);
  observe(s1);
  observe(s2);
}
