// C13: pools of many workers
#include "common.h"

// all workers but one are blocked (and all are asleep at first): the last one has to do the rest
static void last_worker(int w, bool asleep) {
  init();
  mc::ghost n;
  pc::static_thread_pool pool(w);
  auto x = pc::make_promise<void>();
  pc::shared_future<void> open = x.second.share();
  if (asleep)
    std::this_thread::sleep_for(std::chrono::seconds(1));
  for (int i = 0; i < w - 1; i++)
    post(pool.executor(), [open, n] {
      open.wait();
      n.add();
    });
  post(pool.executor(), [n, p = std::move(x.first)]() mutable {
    n.add();
    p.set_value();
  });
  open.wait();
  pool.wait();
  CHECK(n.get() == w, "%ld of %d tasks were run", n.get(), w);
}
SCENARIO(C13, last_of_4, o.preempt = 0; o.preempt_max = 0) { last_worker(4, false); }
SCENARIO(C13, last_of_3, o.preempt = 0; o.preempt_max = 1) { last_worker(3, true); }
// idle workers of a large pool all end
SCENARIO(C13, idle_end, o.preempt = 0; o.preempt_max = 1) {
  init();
  const int asleep = mc::choose(2), end = mc::choose(2);
  pc::static_thread_pool pool(4);
  if (asleep)
    std::this_thread::sleep_for(std::chrono::seconds(1));
  if (end)
    pool.wait();
}
