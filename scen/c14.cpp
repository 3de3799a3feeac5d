// C14: thread pool shutdown terminates, and no unrun task is silently lost.
#include "common.h"
#include <system_error>

struct Book {
  mc::ghost started[5], ended[5], stopped, after[4];
  // body of task i; counts tasks started after stop() returned, per worker thread
  void run(int i, const Tracked &cap) const {
    if (stopped.get())
      after[mc::tid() % 4].bump();
    started[i].bump();
    CHECK(cap.get() == i);
    mc::yield_point();
    CHECK(cap.get() == i);
    ended[i].bump();
  }
};
// every task ran to its end once or not at all, in accordance with its future
static void settle(const Book &b, std::vector<pc::future<int>> &f, int n) {
  for (int i = 0; i < n; i++) {
    CHECK(f[i].is_ready(), "future %d of a shut down pool is not ready", i);
    const long s = b.started[i].peek();
    CHECK(s <= 1 && s == b.ended[i].peek(), "task %d started %ld times and finished %ld times", i, s, b.ended[i].peek());
    const int r = outcome_of([&] { return f[i].get(); });
    CHECK(r == (s ? i : BROKEN), "task %d ran %ld times but its future says %d", i, s, r);
  }
  for (int w = 0; w < 4; w++)
    CHECK(b.after[w].peek() <= 1, "worker T%d started %ld tasks after stop() returned", w, b.after[w].peek());
  CHECK(live_tracked() == 0, "%ld captured objects outlive the pool", live_tracked());
}
static pc::future<int> submit(pc::static_thread_pool &p, const Book &b, int i) {
  return pc::async(p.executor(), [b, i, cap = Tracked(i)] {
    b.run(i, cap);
    return i;
  });
}
enum { DTOR = 0, STOP_DTOR = 1, STOP_WAIT = 2, STOP_STOP = 3, WAIT_STOP = 4, N_END = 5 };
static void close(std::unique_ptr<pc::static_thread_pool> &p, const Book &b, int how) {
  switch (how) {
  case STOP_DTOR:
    p->stop();
    b.stopped.set(1);
    break;
  case STOP_WAIT:
    p->stop();
    b.stopped.set(1);
    p->wait();
    break;
  case STOP_STOP:
    p->stop();
    b.stopped.set(1);
    p->stop();
    break;
  case WAIT_STOP:
    p->wait();
    p->stop();
    break;
  }
  p.reset();
}
static void simple(int w, int m) {
  init();
  {
    Book b;
    const int how = mc::choose(N_END);
    std::vector<pc::future<int>> f;
    std::unique_ptr<pc::static_thread_pool> p(new pc::static_thread_pool(w));
    for (int i = 0; i < m; i++)
      f.push_back(submit(*p, b, i));
    close(p, b, how);
    settle(b, f, m);
    if (how == WAIT_STOP && w)
      for (int i = 0; i < m; i++)
        CHECK(b.started[i].peek() == 1);
  }
  NO_TRACKED_LEFT();
}
SCENARIO(C14, w0_t2) { simple(0, 2); }
SCENARIO(C14, w1_t0, o.preempt = -1; o.env = 1) { simple(1, 0); }
SCENARIO(C14, w1_t1, o.preempt = 4; o.env = 1) { simple(1, 1); }
SCENARIO(C14, w1_t2, o.preempt = 3; o.preempt_max = -1; o.env = 1) { simple(1, 2); }
SCENARIO(C14, w1_t4, o.preempt = 4; o.preempt_max = -1) { simple(1, 4); }
SCENARIO(C14, w2_t2, o.preempt = 3; o.preempt_max = 5) { simple(2, 2); }
SCENARIO(C14, w2_t4, o.preempt = 2; o.preempt_max = 4) { simple(2, 4); }
SCENARIO(C14, w3_t2, o.preempt = 1; o.preempt_max = 3) { simple(3, 2); }

// posts after and during shutdown
SCENARIO(C14, post_after) {
  init();
  {
    Book b;
    const int w = mc::choose(2), how = mc::choose(3), kind = mc::choose(3);
    std::vector<pc::future<int>> f;
    std::unique_ptr<pc::static_thread_pool> p(new pc::static_thread_pool(w));
    if (how == 0)
      p->stop();
    else if (how == 1)
      p->wait();
    else {
      p->wait();
      p->stop();
    }
    if (kind == 0)
      f.push_back(submit(*p, b, 0));
    else if (kind == 1)
      f.push_back(pc::make_ready_future(0).next(p->executor(), [b, cap = Tracked(0)](int v) {
        b.run(0, cap);
        return v;
      }));
    else {
      pc::packaged_task<int()> t([b, cap = Tracked(0)] {
        b.run(0, cap);
        return 0;
      });
      f.push_back(t.get_future());
      post(p->executor(), std::move(t));
    }
    p.reset();
    settle(b, f, 1);
    CHECK(b.started[0].peek() == 0);
  }
  NO_TRACKED_LEFT();
}
static void post_during(int w, bool dtor) {
  init();
  {
    Book b;
    std::vector<pc::future<int>> f(3);
    std::unique_ptr<pc::static_thread_pool> p(new pc::static_thread_pool(w));
    thr t([&f, &p, b] {
      for (int i = 0; i < 2; i++)
        f[i] = submit(*p, b, i);
    });
    f[2] = submit(*p, b, 2);
    p->stop();
    b.stopped.set(1);
    if (!dtor)
      p->wait();
    t = thr();
    p.reset();
    settle(b, f, 3);
  }
  NO_TRACKED_LEFT();
}
SCENARIO(C14, post_during1, o.preempt = 3; o.preempt_max = 5) { post_during(1, true); }
SCENARIO(C14, post_during1_wait, o.preempt = 3; o.preempt_max = 5) { post_during(1, false); }

// stop() called by a task
SCENARIO(C14, stop_in_task, o.preempt = 2; o.preempt_max = 4) {
  init();
  {
    Book b;
    std::vector<pc::future<int>> f;
    const int w = 1 + mc::choose(2);
    std::unique_ptr<pc::static_thread_pool> p(new pc::static_thread_pool(w));
    f.push_back(pc::async(p->executor(), [b, pool = p.get(), cap = Tracked(0)] {
      b.started[0].bump();
      pool->stop();
      b.stopped.set(1);
      b.ended[0].bump();
      return 0;
    }));
    f.push_back(submit(*p, b, 1));
    f.push_back(submit(*p, b, 2));
    CHECK(f[0].is_ready() || true);
    p->wait(); // drains or is cut short by stop()
    p.reset();
    settle(b, f, 3);
    CHECK(b.started[0].peek() == 1);
    if (w == 1)
      CHECK(b.started[1].peek() == 0 && b.started[2].peek() == 0, "task started after stop()");
  }
  NO_TRACKED_LEFT();
}
// a task posts another one while the pool shuts down; chains break at some stage
SCENARIO(C14, chain, o.preempt = 4; o.preempt_max = -1) {
  init();
  {
    Book b;
    pc::future<int> f;
    {
      pc::static_thread_pool p(1);
      f = submit(p, b, 0)
              .next(p.executor(), [b, cap = Tracked(1)](int v) {
                b.run(1, cap);
                return v + 1;
              })
              .next([b, cap = Tracked(2)](int v) {
                b.run(2, cap);
                return v + 1;
              });
    }
    CHECK(f.is_ready());
    const int r = outcome_of([&] { return f.get(); });
    CHECK(r == (b.started[2].peek() ? 2 : BROKEN));
    CHECK(b.started[1].peek() <= b.started[0].peek() && b.started[2].peek() <= b.started[1].peek());
    CHECK(live_tracked() == 0);
    mc::outcome("stages %ld%ld%ld", b.started[0].peek(), b.started[1].peek(), b.started[2].peek());
  }
}
SCENARIO(C14, nested, o.preempt = 4; o.preempt_max = -1) {
  init();
  {
    Book b;
    std::vector<pc::future<int>> f(2);
    {
      pc::static_thread_pool p(1);
      f[0] = pc::async(p.executor(), [b, pp = &p, g = &f[1], cap = Tracked(0)] {
        *g = submit(*pp, b, 1);
        b.run(0, cap);
        return 0;
      });
      p.stop();
      b.stopped.set(1);
    }
    if (!f[1].valid())
      f[1] = pc::async(dropper{}, [] { return 1; });
    settle(b, f, 2);
  }
  NO_TRACKED_LEFT();
}
// waiters on the futures while the pool goes away
SCENARIO(C14, waiter, o.preempt = 4; o.preempt_max = -1) {
  init();
  {
    Book b;
    std::unique_ptr<pc::static_thread_pool> p(new pc::static_thread_pool(1));
    pc::future<int> f = submit(*p, b, 0);
    thr w([f = std::move(f), b]() mutable {
      const int r = outcome_of([&] { return f.get(); });
      CHECK(r == 0 || r == BROKEN);
      CHECK((r == 0) == (b.started[0].peek() == 1));
    });
    p.reset();
    w = thr();
    CHECK(live_tracked() == 0);
  }
}
// attached threads leave on stop(), on wait(), and when the pool was closed before
SCENARIO(C14, attached, o.preempt = 3; o.preempt_max = 5) {
  init();
  {
    Book b;
    const int w = mc::choose(2), how = mc::choose(2);
    std::vector<pc::future<int>> f;
    std::unique_ptr<pc::static_thread_pool> p(new pc::static_thread_pool(w));
    thr a([pp = p.get()] { pp->attach(); });
    for (int i = 0; i < 2; i++)
      f.push_back(submit(*p, b, i));
    if (how)
      p->stop(), b.stopped.set(1);
    else
      p->wait();
    a = thr();
    p.reset();
    settle(b, f, 2);
  }
}
// a worker thread cannot be started: the error surfaces and the others are joined
SCENARIO(C14, thread_failure, o.preempt = 2; o.preempt_max = -1) {
  init();
  const int n = 1 + mc::choose(3), k = 1 + mc::choose(3);
  if (k > n)
    mc::discard();
  mc::fail_thread_at(k);
  bool thrown = false;
  try {
    pc::static_thread_pool p(n);
  } catch (const std::system_error &) {
    thrown = true;
  }
  mc::fail_thread_at(0);
  CHECK(thrown, "thread %d of %d failed to start silently", k, n);
}
// memory runs out while the pool is built
SCENARIO(C14, alloc_failure, o.preempt = 2; o.preempt_max = -1) {
  init();
  const int k = 1 + mc::choose(12);
  mc::fail_alloc_at(k);
  bool thrown = false, built = false;
  try {
    pc::static_thread_pool p(2);
    mc::fail_alloc_at(0);
    built = true;
  } catch (const std::bad_alloc &) {
    thrown = true;
  }
  mc::fail_alloc_at(0);
  CHECK(thrown != built);
  mc::outcome("%s", thrown ? "thrown" : "built");
}
