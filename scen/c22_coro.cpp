// C22: failing allocations around coroutines. MC_STD: gnu++20
#include "common.h"
#include <coroutine>

struct Frame {
  Tracked t{77};
  mc::ghost d;
  explicit Frame(mc::ghost x) : d(x) {}
  ~Frame() { d.bump(); }
};
template <typename Fut> static pc::future<int> co(mc::ghost started, mc::ghost dead, Fut f, int k) {
  Frame fr(dead);
  started.bump();
  int o;
  try {
    mc::fail_alloc_at(k);
    const Tracked &t = co_await f;
    mc::fail_alloc_at(0);
    o = t.get();
  } catch (...) {
    mc::fail_alloc_at(0);
    o = classify(std::current_exception());
  }
  if (o == BADALLOC) { // the awaited future is still there
    CHECK(f.valid(), "a failing co_await lost the future");
    const Tracked &t = co_await f;
    o = t.get();
  }
  co_return o + 1000;
}
template <typename Fut> static void frames() {
  init();
  {
    const int k = 1 + mc::choose(6), k2 = mc::choose(4), ready = mc::choose(2);
    mc::ghost started, dead, n;
    auto x = pc::make_promise<Tracked>();
    Fut f(std::move(x.second));
    f.notify([n] { n.bump(); });
    if (ready)
      x.first.set_value(Tracked(1));
    pc::future<int> r;
    mc::fail_alloc_at(k2 ? 0 : k);
    const int o = outcome_of([&] {
      r = co<Fut>(started, dead, std::move(f), k2);
      return 0;
    });
    mc::fail_alloc_at(0);
    CHECK(o == 0 || o == BADALLOC, "(%d)", o);
    if (o == 0) {
      const bool ran = started.peek() == 1; // else its own first local failed
      if (!ready) {
        CHECK(r.is_ready() == !ran && dead.peek() == 0);
        x.first.set_value(Tracked(1));
      }
      CHECK(r.is_ready());
      const int ro = get_outcome(r);
      CHECK(ro == (ran ? 1 : BADALLOC), "(%d)", ro);
      CHECK(dead.peek() == ran);
      if (ran || ready)
        CHECK(n.peek() == 1);
    } else
      CHECK(started.peek() == 0 && dead.peek() == 0);
  }
  NO_TRACKED_LEFT();
}
SCENARIO(C22, coro) { frames<pc::future<Tracked>>(); }
SCENARIO(C22, coro_shared) { frames<pc::shared_future<Tracked>>(); }
