#include "c06.h"
SCENARIO(C06, u_void) { orders<void, false>(); }
SCENARIO(C06, u_string) { orders<std::string, false>(); }
SCENARIO(C06, race_task, o.preempt = 3; o.preempt_max = -1) { race<Tracked, false>(OUT_TASK, 3); }
SCENARIO(C06, race_next, o.preempt = 3; o.preempt_max = -1) { race<Tracked, false>(OUT_NEXT, 3); }
SCENARIO(C06, race_then_shared, o.preempt = 3; o.preempt_max = -1) { race<Tracked, true>(OUT_THEN, 2); }
SCENARIO(C06, race_void, o.preempt = 3; o.preempt_max = -1) { race<void, false>(OUT_VNEXT, 2); }
SCENARIO(C06, race_ref, o.preempt = 3; o.preempt_max = -1) { race<int &, false>(OUT_STHEN, 2); }
SCENARIO(C06, race_async, o.preempt = 3; o.preempt_max = -1) { race<uptr, false>(OUT_ASYNC, 2); }

// nesting: functions that return futures of functions that return futures
SCENARIO(C06, nested3) {
  init();
  {
    const int order = mc::choose(6), how = mc::choose(3), drop = mc::choose(2);
    static const int perm[6][3] = {{0, 1, 2}, {0, 2, 1}, {1, 0, 2}, {1, 2, 0}, {2, 0, 1}, {2, 1, 0}};
    auto p0 = pc::make_promise<Tracked>();
    auto p1 = pc::make_promise<void>();
    auto p2 = pc::make_promise<int>();
    pc::future<Tracked> mid = p1.second.next([f = std::move(p0.second)]() mutable { return std::move(f); });
    pc::future<Tracked> f = p2.second.next([m = std::move(mid)](int) mutable { return std::move(m); });
    int left = 3;
    for (int k = 0; k < 3; k++) {
      CHECK(!f.is_ready());
      switch (perm[order][k]) {
      case 0:
        complete(p0.first, how);
        break;
      case 1:
        p1.first.set_value();
        if (drop)
          pc::promise<void> gone(std::move(p1.first));
        break;
      case 2:
        p2.first.set_value(3);
        if (drop)
          pc::promise<int> gone(std::move(p2.first));
        break;
      }
      left--;
    }
    CHECK(f.is_ready());
    CHECK(get_outcome(f) == want<Tracked>(how));
  }
  NO_TRACKED_LEFT();
}
SCENARIO(C06, nested_task) {
  init();
  {
    // a task that posts a task that posts a task
    Queue q;
    const int depth = 1 + mc::choose(3), how = mc::choose(2);
    std::function<pc::future<int>(int)> go = [&](int d) -> pc::future<int> {
      if (d == 0) {
        if (how)
          throw test_error{2};
        return pc::make_ready_future(kind<int>::make(1));
      }
      return pc::async(qexec{&q}, go, d - 1);
    };
    pc::future<int> f = pc::async(qexec{&q}, go, depth);
    int steps = 0;
    while (!f.is_ready()) {
      CHECK(q.run_one(), "stuck");
      steps++;
    }
    CHECK(steps == depth + 1);
    CHECK(get_outcome(f) == want<int>(how));
  }
}
// when the chain of unwrapped futures races with completion in both places and nobody waits but a continuation
SCENARIO(C06, race_continuation, o.preempt = 3; o.preempt_max = -1) {
  init();
  {
    mc::ghost seen;
    auto in = pc::make_promise<Tracked>();
    auto x = pc::make_promise<int>();
    pc::future<int> f = x.second.next([g = std::move(in.second)](int) mutable { return std::move(g); }).next([seen](Tracked t) {
      seen.bump();
      return t.get();
    });
    {
      thr a([p = std::move(x.first)]() mutable { p.set_value(3); });
      thr b([p = std::move(in.first)]() mutable { p.set_value(Tracked(1)); });
    }
    CHECK(f.is_ready() && seen.peek() == 1);
    CHECK(f.get() == 1);
  }
  NO_TRACKED_LEFT();
}
// two outer futures on one shared inner future
SCENARIO(C06, shared_inner_twice, o.preempt = 3; o.preempt_max = -1) {
  init();
  {
    auto in = pc::make_promise<Tracked>();
    pc::shared_future<Tracked> s = in.second.share();
    pc::packaged_task<pc::shared_future<Tracked>()> t1([s] { return s; });
    auto f1 = t1.get_future();
    thr a([t1 = std::move(t1)]() mutable { t1(); });
    thr b([p = std::move(in.first)]() mutable { p.set_value(Tracked(1)); });
    pc::shared_future<Tracked> f2 = pc::async(pc::inplace_executor, [s = std::move(s)] { return s; });
    CHECK(f2.get().get() == 1 && f1.get().get() == 1);
    CHECK(&f1.get() == &f2.get() || f1.get().get() == f2.get().get());
  }
  NO_TRACKED_LEFT();
}
// the outer future is dropped: neither deadlock nor a dangling result, the inner promise sees it
SCENARIO(C06, drop_outer, o.preempt = 3; o.preempt_max = -1) {
  init();
  {
    auto in = pc::make_promise<Tracked>();
    auto x = pc::make_promise<int>();
    pc::future<Tracked> f = x.second.next([g = std::move(in.second)](int) mutable { return std::move(g); });
    thr a([p = std::move(x.first)]() mutable { p.set_value(3); });
    thr b([p = std::move(in.first)]() mutable { p.set_value(Tracked(1)); });
    f = pc::future<Tracked>();
  }
  NO_TRACKED_LEFT();
}
// promise arguments: an interruptible continuation completes through another future's continuation
SCENARIO(C06, forwarded_promise, o.preempt = 3; o.preempt_max = -1) {
  init();
  {
    auto in = pc::make_promise<int>();
    auto x = pc::make_promise<int>();
    pc::future<int> f = x.second.then([g = std::move(in.second)](pc::promise<int> r, pc::future<int> v) mutable {
      CHECK(v.get() == 3);
      g.next([r = std::move(r)](int i) mutable { r.set_value(i); }).detach();
    });
    thr a([p = std::move(x.first)]() mutable { p.set_value(3); });
    thr b([p = std::move(in.first)]() mutable { p.set_value(8); });
    CHECK(f.get() == 8);
  }
}
