// C16: many timed waiters
#include "common.h"
using namespace std::chrono_literals;

template <typename Fut> static void crowd(int n) {
  init();
  const int copies = mc::choose(2);
  mc::ghost done;
  pc::promise<int> p;
  Fut f = p.get_future();
  pc::timed_waiter w0(f);
  {
    std::vector<thr> ts;
    for (int i = 0; i < n; i++)
      ts.emplace_back([&, i, w = copies ? w0 : pc::timed_waiter(f)]() mutable {
        const auto st = i % 2 ? w.wait_for(10h) : w.wait_until(std::chrono::steady_clock::now() + 10h);
        CHECK(st == pc::future_status::ready && done.get() == 1, "waiter %d slept through the completion", i);
        CHECK(mc::now_ns() < std::chrono::nanoseconds(9h).count());
      });
    std::this_thread::sleep_for(1s);
    done.set(1);
    p.set_value(3);
  }
  CHECK(f.get() == 3);
}
SCENARIO(C16, crowd4, o.preempt = 0; o.preempt_max = 1) { crowd<pc::future<int>>(4); }
SCENARIO(C16, crowd4_shared, o.preempt = 0; o.preempt_max = 1) { crowd<pc::shared_future<int>>(4); }
SCENARIO(C16, crowd5, o.preempt = 0; o.preempt_max = 0) { crowd<pc::shared_future<int>>(5); }
