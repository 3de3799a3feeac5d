// C13: the thread pool runs every accepted task exactly once and wait() drains it.
#include "common.h"

struct Book { // per-task accounting
  mc::ghost started[5], ended[5], inside;
  void run(int i) const {
    started[i].bump();
    inside.add(1);
    inside.add(-1);
    ended[i].bump();
  }
  void all_done(int n) const {
    for (int i = 0; i < n; i++)
      CHECK(started[i].peek() == 1 && ended[i].peek() == 1, "task %d started %ld times, finished %ld times", i,
            started[i].peek(), ended[i].peek());
    CHECK(inside.peek() == 0, "a worker is still inside a task");
  }
};

// m tasks posted by the main thread to a pool of w workers
static void simple(int w, int m) {
  init();
  {
    Book b;
    int data[5] = {0};
    const int me = mc::tid();
    {
      pc::static_thread_pool pool(w);
      for (int i = 0; i < m; i++) {
        data[i] = 10 + i; // written before the post, read by the task
        post(pool.executor(), [b, i, &data, me, cap = Tracked(i)] {
          CHECK(data[i] == 10 + i);
          data[i] = 20 + i;
          CHECK(mc::tid() != me, "task ran in the posting thread");
          CHECK(cap.get() == i);
          b.run(i);
        });
      }
      pool.wait();
      b.all_done(m);
      for (int i = 0; i < m; i++)
        CHECK(data[i] == 20 + i); // effects of the tasks are visible after wait()
      CHECK(live_tracked() == 0);
    }
  }
  NO_TRACKED_LEFT();
}
SCENARIO(C13, w1_t0, o.preempt = -1; o.env = 1) { simple(1, 0); }
SCENARIO(C13, w1_t1, o.preempt = -1; o.env = 1) { simple(1, 1); }
SCENARIO(C13, w1_t2, o.preempt = 5; o.env = 1) { simple(1, 2); }
SCENARIO(C13, w1_t4, o.preempt = 4) { simple(1, 4); }
SCENARIO(C13, w2_t1, o.preempt = 4; o.env = 1) { simple(2, 1); }
SCENARIO(C13, w2_t2, o.preempt = 3; o.preempt_max = 4; o.env = 1) { simple(2, 2); }
SCENARIO(C13, w2_t3, o.preempt = 3; o.preempt_max = 4) { simple(2, 3); }
SCENARIO(C13, w3_t3, o.preempt = 2; o.preempt_max = 3) { simple(3, 3); }

// tasks posted by another thread as well
static void posters(int w) {
  init();
  {
    Book b;
    pc::static_thread_pool pool(w);
    thr p([&pool, b] {
      for (int i = 0; i < 2; i++)
        post(pool.executor(), [b, i, cap = Tracked(i)] { b.run(i); });
    });
    post(pool.executor(), [b, u = uptr(new int(2))] { b.run(*u); });
    p = thr();
    pool.wait();
    b.all_done(3);
    CHECK(live_tracked() == 0);
  }
}
SCENARIO(C13, posters1, o.preempt = 4; o.preempt_max = -1) { posters(1); }
SCENARIO(C13, posters2, o.preempt = 2; o.preempt_max = 3) { posters(2); }

// an idle worker takes a queued task while the other worker is blocked
static void idle(int order) {
  init();
  {
    Book b;
    pc::static_thread_pool pool(2);
    auto x = pc::make_promise<int>();
    pc::shared_future<int> s = x.second.share();
    auto blocker = [b, s] {
      s.wait();
      CHECK(get_outcome(s) == 1);
      b.run(0);
    };
    auto opener = [b, p = std::move(x.first)]() mutable {
      set_id<int>(p, 1);
      b.run(1);
    };
    if (order == 0) {
      post(pool.executor(), std::move(blocker));
      post(pool.executor(), std::move(opener));
    } else {
      post(pool.executor(), std::move(opener));
      post(pool.executor(), std::move(blocker));
    }
    s.wait(); // before wait(): the pool is open
    pool.wait();
    b.all_done(2);
  }
}
SCENARIO(C13, idle_blocker_first, o.preempt = 2; o.preempt_max = 3; o.env = 1) { idle(0); }
SCENARIO(C13, idle_opener_first, o.preempt = 2; o.preempt_max = 3) { idle(1); }
// a task posts another one and blocks on it
SCENARIO(C13, idle_nested, o.preempt = 2; o.preempt_max = 3; o.env = 1) {
  init();
  Book b;
  pc::static_thread_pool pool(2);
  pc::future<int> f = pc::async(pool.executor(), [&pool, b] {
    pc::future<int> g = pc::async(pool.executor(), [b] {
      b.run(0);
      return 1;
    });
    int r = g.get();
    b.run(1);
    return r + 1;
  });
  CHECK(f.get() == 2);
  pool.wait();
  b.all_done(2);
}
// three workers: two blocked, the third one has to do the rest
SCENARIO(C13, idle_three, o.preempt = 1; o.preempt_max = 2) {
  init();
  Book b;
  pc::static_thread_pool pool(3);
  auto x = pc::make_promise<int>();
  pc::shared_future<int> s = x.second.share();
  for (int i = 0; i < 2; i++)
    post(pool.executor(), [b, s, i] {
      s.wait();
      b.run(i);
    });
  post(pool.executor(), [b] { b.run(2); });
  post(pool.executor(), [b, p = std::move(x.first)]() mutable {
    set_id<int>(p, 1);
    b.run(3);
  });
  s.wait();
  pool.wait();
  b.all_done(4);
}
// task posted after the worker went to sleep
SCENARIO(C13, wakeup, o.preempt = 3; o.env = 1; o.env_max = 2) {
  init();
  Book b;
  pc::static_thread_pool pool(1);
  for (int i = 0; i < 2; i++) {
    pc::future<int> f = pc::async(pool.executor(), [b, i] {
      b.run(i);
      return i;
    });
    CHECK(f.get() == i);
  }
  pool.wait();
  b.all_done(2);
}
// continuations and notifications handed to the pool
SCENARIO(C13, chain, o.preempt = 4; o.preempt_max = -1) {
  init();
  {
    Book b;
    const int me = mc::tid();
    pc::static_thread_pool pool(1);
    pc::future<int> f = pc::async(pool.executor(),
                                  [b](int a, const uptr &p) {
                                    b.run(0);
                                    return a + *p;
                                  },
                                  1, uptr(new int(2)))
                            .next(pool.executor(),
                                  [b, me, cap = Tracked(1)](int v) {
                                    CHECK(mc::tid() != me);
                                    b.run(1);
                                    return v + 1;
                                  })
                            .then(pool.executor(), [b, me](pc::future<int> x) {
                              CHECK(mc::tid() != me);
                              b.run(2);
                              return x.get() + 1;
                            });
    CHECK(f.get() == 5);
    pool.wait();
    b.all_done(3);
  }
  NO_TRACKED_LEFT();
}
SCENARIO(C13, notify, o.preempt = 5; o.preempt_max = -1) {
  init();
  Book b;
  pc::static_thread_pool pool(1);
  auto x = pc::make_promise<int>();
  Book *pb = &b;
  const int me = mc::tid();
  x.second.notify(pool.executor(), [pb, me] {
    CHECK(mc::tid() != me);
    pb->run(0);
  });
  set_id<int>(x.first, 1);
  x.second.notify(pool.executor(), [pb, me] {
    CHECK(mc::tid() != me);
    pb->run(1);
  });
  pool.wait();
  b.all_done(2);
}

// ---------------------------------------------------------------- attached threads
// the only worker is an attached thread
SCENARIO(C13, attached_only, o.preempt = 3; o.env = 1) {
  init();
  {
    Book b;
    mc::ghost who;
    const int me = mc::tid();
    pc::static_thread_pool pool(0);
    thr w([&pool] { pool.attach(); });
    pc::future<int> f = pc::async(pool.executor(), [b] {
      b.run(0);
      return 1;
    });
    CHECK(f.get() == 1); // the thread is a worker now
    post(pool.executor(), [b, me, cap = Tracked(1)] {
      CHECK(mc::tid() != me);
      b.run(1);
    });
    pool.wait();
    b.all_done(2);
    CHECK(live_tracked() == 0);
    w = thr();
  }
}
// own and attached workers together
SCENARIO(C13, attached_and_own, o.preempt = 3; o.preempt_max = 4) {
  init();
  {
    Book b;
    pc::static_thread_pool pool(1);
    thr w([&pool] { pool.attach(); });
    for (int i = 0; i < 2; i++)
      post(pool.executor(), [b, i, cap = Tracked(1)] { b.run(i); });
    pool.wait();
    b.all_done(2);
    CHECK(live_tracked() == 0);
    w = thr();
  }
}
// two attached threads, one blocked in its task
SCENARIO(C13, attached_two, o.preempt = 2; o.preempt_max = 3) {
  init();
  {
    Book b;
    pc::static_thread_pool pool(0);
    thr w1([&pool] { pool.attach(); });
    thr w2([&pool] { pool.attach(); });
    auto x = pc::make_promise<int>();
    pc::shared_future<int> s = x.second.share();
    post(pool.executor(), [b, s] {
      s.wait();
      b.run(0);
    });
    post(pool.executor(), [b, p = std::move(x.first)]() mutable {
      set_id<int>(p, 1);
      b.run(1);
    });
    s.wait();
    pool.wait();
    b.all_done(2);
    w1 = thr();
    w2 = thr();
  }
}
// the attached thread runs a long task while own workers are idle and wait() is called
SCENARIO(C13, attached_busy, o.preempt = 3; o.preempt_max = 5) {
  init();
  {
    Book b;
    mc::ghost left;
    const int own = mc::choose(2);
    pc::static_thread_pool pool(own);
    thr w([&pool, left] {
      pool.attach();
      left.set(1);
    });
    pc::future<int> f = pc::async(pool.executor(), [] { return 1; });
    CHECK(f.get() == 1);
    if (!own)
      CHECK(left.get() == 0, "attach() returned while the pool is open");
    post(pool.executor(), [b] {
      b.inside.add(1);
      mc::yield_point();
      mc::yield_point();
      b.inside.add(-1);
      b.run(0);
    });
    pool.wait();
    b.all_done(1);
    w = thr();
  }
}
// wait() twice, and tasks of every size
SCENARIO(C13, callables, o.preempt = 3; o.preempt_max = -1) {
  init();
  {
    Book b;
    struct Big {
      char pad[200] = {7};
    };
    pc::static_thread_pool pool(1);
    auto ex = pool.executor();
    auto ex2 = ex;
    post(ex, [b] { b.run(0); });
    post(ex2, [b, big = Big{}, cap = Tracked(1)] {
      CHECK(big.pad[0] == 7);
      b.run(1);
    });
    Book *pb = &b;
    post(ex, [pb] { pb->run(2); });
    struct Fn {
      const Book &b;
      void operator()() const { b.run(3); }
    } fn{b};
    post(ex, std::ref(fn));
    pc::packaged_task<void()> t([b] { b.run(4); });
    auto f = t.get_future();
    post(ex, std::move(t));
    pool.wait();
    b.all_done(5);
    CHECK(f.is_ready());
    f.get();
    pool.wait();
    CHECK(live_tracked() == 0);
  }
}
