// C13: bursts of tasks
#include "common.h"

// all tasks pile up behind the first one, or are taken as they come
SCENARIO(C13, burst, o.preempt = 0) {
  init();
  static const int sizes[] = {9, 33, 70, 130, 300, 1100};
  const int n = sizes[mc::choose(6)], w = mc::choose(3), blocked = mc::choose(2), from = mc::choose(2);
  std::vector<int> runs(n);
  int *r = runs.data();
  {
    pc::static_thread_pool pool(w);
    std::vector<thr> att;
    if (!w)
      att.emplace_back([&pool] { pool.attach(); });
    auto gate = pc::make_promise<void>();
    pc::shared_future<void> open = gate.second.share();
    const int k = w ? w : 1;
    mc::ghost in;
    if (blocked)
      for (int i = 0; i < k; i++)
        post(pool.executor(), [open] { open.wait(); });
    auto work = [&] {
      for (int i = 0; i < n; i++)
        post(pool.executor(), [r, i] { r[i]++; });
    };
    if (from)
      thr(work).join();
    else
      work();
    gate.first.set_value();
    if (!w) { // the attached thread is a worker once one task has run
      pc::async(pool.executor(), [] {}).get();
    }
    pool.wait();
    for (int i = 0; i < n; i++)
      CHECK(r[i] == 1, "task %d of %d ran %d times", i, n, r[i]);
  }
}
// each task posts the next one
struct Hop {
  pc::static_thread_pool *pool;
  int *runs;
  pc::promise<void> *last;
  int left;
  void operator()() {
    ++*runs;
    if (left)
      post(pool->executor(), Hop{pool, runs, last, left - 1});
    else
      last->set_value();
  }
};
SCENARIO(C13, relay, o.preempt = 0) {
  init();
  static const int sizes[] = {10, 70, 300};
  const int n = sizes[mc::choose(3)], w = 1 + mc::choose(2);
  int runs = 0;
  auto x = pc::make_promise<void>();
  pc::static_thread_pool pool(w);
  post(pool.executor(), Hop{&pool, &runs, &x.first, n});
  x.second.get();
  pool.wait();
  CHECK(runs == n + 1, "%d of %d tasks ran", runs, n + 1);
}
// more queued tasks than a 16-bit counter holds
SCENARIO(C13, huge, o.big = true) {
  init();
  const int n = 66000;
  long runs = 0, *r = &runs;
  pc::static_thread_pool pool(0);
  for (int i = 0; i < n; i++)
    post(pool.executor(), [r, &pool] {
      if (++*r == n)
        pool.stop();
    });
  pool.attach();
  CHECK(runs == n, "%ld of %d tasks ran", runs, n);
}
