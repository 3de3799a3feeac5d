// C04 with many attachments to one result
#include "common.h"

SCENARIO(C04, large) {
  init();
  static const int sizes[] = {17, 65, 257, 300};
  const int n = sizes[mc::choose(4)], at = mc::choose(3), how = mc::choose(3);
  MtQueue q;
  {
    auto x = pc::make_promise<int>();
    pc::shared_future<int> f = x.second.share();
    std::vector<pc::future<int>> g;
    std::vector<int> runs(n);
    int *r = runs.data();
    for (int i = 0; i < n; i++) {
      if (i == (at == 0 ? 1 : at == 1 ? n / 2 : n - 1)) {
        for (int k = 0; k < i; k++)
          CHECK(r[k] == 0, "attachment %d of %d called before the result was supplied", k, n);
        if (how == 0)
          x.first.set_value(1);
        else if (how == 1)
          x.first.set_exception(err(1));
        else
          pc::promise<int> gone(std::move(x.first));
      }
      switch (i % 4) {
      case 0:
        f.notify([r, i] { r[i]++; });
        break;
      case 1:
        g.push_back(f.then([r, i](pc::shared_future<int> v) {
          r[i]++;
          CHECK(v.is_ready());
          return i;
        }));
        break;
      case 2:
        f.notify(mtexec{&q}, [r, i] { r[i]++; });
        break;
      case 3:
        g.push_back(f.then(mtexec{&q}, [r, i](pc::shared_future<int>) {
          r[i]++;
          return i;
        }));
        break;
      }
    }
    q.run_all();
    for (int i = 0; i < n; i++)
      CHECK(r[i] == 1, "attachment %d of %d called %d times", i, n, r[i]);
    for (size_t i = 0; i < g.size(); i++)
      CHECK(g[i].is_ready() && g[i].get() == (int)(i / 2 * 4 + (i % 2 ? 3 : 1)), "continuation %zu", i);
  }
}
// more notifications than a 16-bit counter holds
SCENARIO(C04, huge, o.big = true) {
  init();
  const int n = 66000;
  auto x = pc::make_promise<int>();
  long runs = 0, last = -1;
  for (int i = 0; i < n; i++)
    x.second.notify([&runs, &last, i] {
      runs++;
      last = i;
    });
  CHECK(runs == 0);
  x.first.set_value(1);
  CHECK(runs == n, "%ld of %d notifications called", runs, n);
  x.second.notify([&runs] { runs++; });
  CHECK(runs == n + 1);
}
// one attachment is overtaken by many others, any number of times in a row
static void contended(int k, bool complete) {
  init();
  mc::ghost mine, others;
  {
    auto x = pc::make_promise<int>();
    pc::shared_future<int> f = x.second.share();
    auto g = f;
    {
      thr t([&] {
        for (int i = 0; i < k; i++)
          g.notify([others] { others.bump(); });
        if (complete)
          x.first.set_value(1);
      });
      f.notify([mine] { mine.bump(); });
    }
    if (!complete)
      x.first.set_value(1);
    CHECK(mine.peek() == 1 && others.peek() == k, "the notification was called %ld times, the %d others %ld times", mine.peek(), k, others.peek());
  }
}
SCENARIO(C04, contended2, o.preempt = -1) { contended(2, true); }
SCENARIO(C04, contended8, o.preempt = -1) { contended(8, false); }
SCENARIO(C04, contended8_complete, o.preempt = -1) { contended(8, true); }
SCENARIO(C04, contended12, o.preempt = -1) { contended(12, false); }
