// C15: many threads at one latch
#include "common.h"

static void crowd(int n, bool both, bool asleep) {
  init();
  mc::ghost begun, left;
  const int total = both ? n + 1 : 1;
  auto *l = new pc::latch(total);
  {
    std::vector<thr> ts;
    for (int i = 0; i < n; i++)
      ts.emplace_back([=]() mutable {
        if (both) {
          begun.add();
          l->count_down_and_wait();
        } else
          l->wait();
        CHECK(begun.get() == total, "released at %ld of %d", begun.get(), total);
        left.add();
      });
    if (asleep)
      std::this_thread::sleep_for(std::chrono::seconds(1));
    begun.add();
    if (both || asleep) {
      l->count_down_and_wait();
      delete l; // everybody is inside, or has left
      l = nullptr;
    } else
      l->count_down();
  }
  CHECK(left.get() == n);
  delete l;
}
SCENARIO(C15, crowd_wait4, o.preempt = 0; o.preempt_max = 1) { crowd(4, false, mc::choose(2)); }
SCENARIO(C15, crowd_both4, o.preempt = 0; o.preempt_max = 1) { crowd(4, true, mc::choose(2)); }
SCENARIO(C15, crowd_wait5, o.preempt = 0; o.preempt_max = 0) { crowd(5, false, true); }
