// C02: many waiters on one result
#include "common.h"

static void crowd(int n, bool asleep) {
  init();
  mc::ghost done, woken;
  auto x = pc::make_promise<int>();
  pc::shared_future<int> s = x.second.share();
  {
    std::vector<thr> ts;
    for (int i = 0; i < n; i++)
      ts.emplace_back([s, i, done, woken]() mutable {
        if (i % 2)
          s.wait();
        CHECK(s.get() == 7);
        CHECK(done.get() == 1, "returned before the result was supplied");
        woken.add();
      });
    if (asleep)
      std::this_thread::sleep_for(std::chrono::seconds(1)); // everybody waits by now
    done.set(1);
    x.first.set_value(7);
  }
  CHECK(woken.get() == n);
}
SCENARIO(C02, crowd4, o.preempt = 0; o.preempt_max = 1) { crowd(4, false); }
SCENARIO(C02, crowd5_asleep, o.preempt = 0; o.preempt_max = 0) { crowd(5, true); }
SCENARIO(C02, crowd4_asleep, o.preempt = 0; o.preempt_max = 1) { crowd(4, true); }
