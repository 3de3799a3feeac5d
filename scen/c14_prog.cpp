// C14: all short programs over a result whose continuations run on a pool that is stopped
#include "prog.h"
SCENARIO(C14, prog2, o.preempt = 2; o.preempt_max = 3) { prog::run<2>(2, 1, 1); }
SCENARIO(C14, prog3, o.preempt = 1; o.preempt_max = 2) { prog::run<2>(3, 1, 2); }
// more queued tasks than a 16-bit counter holds are all dropped
SCENARIO(C14, huge, o.big = true) {
  init();
  const int n = 66000, how = mc::choose(3);
  long runs = 0, *r = &runs;
  auto token = std::make_shared<int>(1);
  pc::future<int> last;
  {
    pc::static_thread_pool pool(0);
    if (how == 2)
      pool.stop();
    for (int i = 0; i < n; i++)
      post(pool.executor(), [r, token] { ++*r; });
    last = pc::async(pool.executor(), [token] { return 1; });
    if (how == 1)
      pool.stop();
  }
  CHECK(runs == 0, "%ld tasks ran in a pool without workers", runs);
  CHECK(token.use_count() == 1, "%ld tasks not destroyed", token.use_count() - 1);
  CHECK(get_outcome(last) == BROKEN);
}
