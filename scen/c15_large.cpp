// C15: large counts
#include "common.h"

SCENARIO(C15, large_count) {
  init();
  static const long sizes[] = {127, 128, 255, 256, 257, 32767, 32768, 65535, 65536, 65537, (1L << 31) - 1, 1L << 31, (1L << 31) + 1, (1L << 32) - 1, 1L << 32, (1L << 32) + 1, (1L << 40), (1L << 62) + 3, PTRDIFF_MAX};
  const long n = sizes[mc::choose(19)];
  const int how = mc::choose(4);
  pc::latch l(n);
  CHECK(!l.is_ready());
  if (how == 0)
    l.count_down(n);
  else if (how == 1) {
    l.count_down(n - 1);
    CHECK(!l.is_ready(), "ready with 1 of %ld left", n);
    l.count_down_and_wait();
  } else if (how == 2) {
    l.count_down(1);
    CHECK(!l.is_ready(), "ready with %ld left", n - 1);
    l.count_down(n - 1);
  } else {
    l.count_down(n / 2);
    CHECK(!l.is_ready(), "ready with half of %ld left", n);
    l.count_down(n - n / 2);
  }
  CHECK(l.is_ready(), "not ready at zero (of %ld)", n);
  l.wait();
}
SCENARIO(C15, many_steps) {
  init();
  static const int sizes[] = {17, 255, 256, 300, 600};
  const int n = sizes[mc::choose(5)];
  pc::latch l(n);
  for (int i = 0; i < n; i++) {
    CHECK(!l.is_ready(), "ready after %d of %d", i, n);
    l.count_down();
  }
  CHECK(l.is_ready());
  l.wait();
}
// a waiter is inside while the count passes values a narrower counter would take for zero
SCENARIO(C15, large_waiter, o.preempt = 2; o.preempt_max = 4; o.env = 1) {
  init();
  static const long sizes[] = {1L << 8, 1L << 16, 1L << 31, 1L << 32};
  const long n = sizes[mc::choose(4)];
  mc::ghost last;
  pc::latch l(n + 1);
  {
    thr t([&] {
      l.wait();
      CHECK(last.get(), "released with a count of %ld or 1 left", n);
      CHECK(l.is_ready());
    });
    l.count_down(1);
    l.count_down(n - 1);
    last.set(1);
    l.count_down(1);
  }
}
