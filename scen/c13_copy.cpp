// C13: the task is the function given at the call, whatever happens to the caller's object afterwards
#include "copy.h"

struct Task : Orig {
  void operator()() const { ctr().v[10] += id.get(); }
};
SCENARIO(C13, copy_task) {
  init();
  ctr().v[10] = 0;
  {
    pc::static_thread_pool pool(1);
    hand_over<Task>([&](auto &&t) { post(pool.executor(), FWD(t)); });
    pool.wait();
    CHECK(ctr().v[10] == 5, "%ld", ctr().v[10]);
  }
  NO_TRACKED_LEFT();
}
