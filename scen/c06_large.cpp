// C06: many results one inside the other
#include "common.h"

// stage k's future is returned by stage k+1's function; the stages complete in one of several orders
SCENARIO(C06, deep) {
  init();
  static const int sizes[] = {5, 10, 40, 130};
  const int n = sizes[mc::choose(4)], order = mc::choose(4), how = mc::choose(3), exec = mc::choose(2);
  MtQueue q;
  {
    std::vector<pc::promise<int>> p;
    auto x = pc::make_promise<int>();
    p.push_back(std::move(x.first));
    pc::future<int> f = std::move(x.second);
    for (int i = 1; i < n; i++) {
      auto y = pc::make_promise<int>();
      p.push_back(std::move(y.first));
      auto fn = [in = std::move(f), i](int v) mutable {
        CHECK(v == 100 + i);
        return std::move(in);
      };
      f = exec && i % 2 ? y.second.next(mtexec{&q}, std::move(fn)) : y.second.next(std::move(fn));
    }
    auto done = [&](int i) {
      if (i)
        p[i].set_value(100 + i);
      else if (how == 0)
        p[0].set_value(5);
      else if (how == 1)
        p[0].set_exception(err(1));
      else
        pc::promise<int> gone(std::move(p[0]));
      q.run_all();
    };
    for (int k = 0; k < n; k++) {
      CHECK(!f.is_ready(), "ready after %d of %d", k, n);
      done(order == 0 ? k : order == 1 ? n - 1 - k : order == 2 ? (k + n / 2) % n : k % 2 ? n - 1 - k / 2 : k / 2);
    }
    CHECK(f.is_ready(), "not ready although all %d are", n);
    CHECK(get_outcome(f) == (how == 0 ? 5 - 1000 : how == 1 ? EXC - 1 : BROKEN));
  }
}
