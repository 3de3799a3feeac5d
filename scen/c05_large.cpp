// C05: long chains
#include "common.h"

SCENARIO(C05, long_chain) {
  init();
  static const int sizes[] = {20, 70, 300};
  const int n = sizes[mc::choose(3)], how = mc::choose(3), before = mc::choose(2), exec = mc::choose(2), fail = mc::choose(2) ? n / 2 : -1;
  MtQueue q;
  {
    auto x = pc::make_promise<int>();
    auto done = [&] {
      if (how == 0)
        x.first.set_value(0);
      else if (how == 1)
        x.first.set_exception(err(1));
      else
        pc::promise<int> gone(std::move(x.first));
    };
    int calls = 0;
    if (before)
      done();
    pc::future<int> f = std::move(x.second);
    for (int i = 0; i < n; i++) {
      auto step = [&calls, i, fail](int v) {
        calls++;
        CHECK(v == i, "stage %d got %d", i, v);
        if (i == fail)
          throw test_error(7);
        return v + 1;
      };
      f = exec && i % 3 == 1 ? f.next(mtexec{&q}, step) : f.next(step);
    }
    if (!before) {
      CHECK(!f.is_ready() && calls == 0);
      done();
    }
    q.run_all();
    CHECK(f.is_ready());
    CHECK(get_outcome(f) == (how == 1 ? EXC - 1 : how == 2 ? BROKEN : fail >= 0 ? EXC - 7 : n - 1000), "after %d of %d stages", calls, n);
    CHECK(calls == (how ? 0 : fail >= 0 ? fail + 1 : n));
  }
}
