// C16: timed waits report readiness truthfully.
#include "common.h"
#include <chrono>
using namespace std::chrono_literals;
using std::chrono::nanoseconds;

// What the producer does, as seen by the checker.
struct Log {
  mc::ghost begun, done, done_at;
  long *data = new long(0);
  void before() const {
    *data = 77;
    begun.set(1);
  }
  void after() const {
    done_at.poke(mc::now_ns());
    done.set(1);
  }
};
enum { VALUE = 0, ERROR = 1, BREAK = 2, N_HOW = 3 };
static void finish(pc::promise<int> &p, const Log &l, int how) {
  l.before();
  if (how == VALUE)
    p.set_value(1005);
  else if (how == ERROR)
    p.set_exception(err(3));
  else
    p = pc::promise<int>();
  l.after();
}
static int expected(int how) { return how == VALUE ? 5 : how == ERROR ? EXC - 3 : BROKEN; }

enum { FOR_ = 0, UNTIL_STEADY = 1, UNTIL_SYSTEM = 2, N_API = 3 };
template <typename W> pc::future_status timed(W &w, nanoseconds d, int api) {
  switch (api) {
  case FOR_:
    return w.wait_for(d);
  case UNTIL_STEADY:
    return w.wait_until(std::chrono::steady_clock::now() + d);
  default:
    return w.wait_until(std::chrono::system_clock::now() + d);
  }
}
// One timed wait with its truth conditions. `attached_ready`: the waiter is attached by this very call.
template <typename W, typename Fut> bool judged(W &w, const Fut &f, const Log &l, nanoseconds d, int api, bool attached_now) {
  const bool was_done = l.done.get();
  const bool was_ready = attached_now && f.is_ready();
  const long long start = mc::now_ns();
  const pc::future_status s = timed(w, d, api);
  CHECK(s == pc::future_status::ready || s == pc::future_status::timeout);
  if (s == pc::future_status::ready) {
    CHECK(l.begun.get(), "ready reported before any result was supplied");
    CHECK(f.is_ready(), "ready reported but the future is not ready");
    CHECK(*l.data == 77, "ready reported but the producer's writes are not visible");
    return true;
  }
  CHECK(!was_done, "timeout reported after the result was supplied");
  CHECK(!was_ready, "timeout reported for a ready future");
  CHECK(mc::now_ns() >= start + d.count(), "timeout reported %lld ns before the deadline", start + (long long)d.count() - mc::now_ns());
  CHECK(!(l.done.get() && l.done_at.peek() < start + d.count()), "timeout reported although the result was supplied in time");
  return false;
}
template <typename Fut> int read(Fut &f) { return get_outcome(f); }

// ---- a waiter attached before / after / while the result is supplied
template <typename Fut> void waiter(bool own, int rounds) {
  init();
  Log l;
  {
    const int how = mc::choose(N_HOW), api = mc::choose(N_API), when = mc::choose(2);
    pc::promise<int> p;
    Fut f = p.get_future();
    std::unique_ptr<pc::timed_waiter> w;
    if (own && when == 0)
      w.reset(new pc::timed_waiter(f));
    thr t([&p, l, how] { finish(p, l, how); });
    bool late = own && !w, ready = false;
    for (int r = 0; r < rounds && !ready; r++) {
      if (own && !w) {
        late = f.is_ready();
        w.reset(new pc::timed_waiter(f));
      }
      if (own) {
        ready = judged(*w, f, l, r ? 5s : 0s, api, false);
        CHECK(ready || !late, "timeout from a waiter attached to a ready future");
      } else
        ready = judged(f, f, l, r ? 5s : 0s, api, true);
    }
    t = thr();
    if (own) {
      CHECK(judged(*w, f, l, 0s, api, false));
      CHECK(judged(*w, f, l, -1s, FOR_, false));
      pc::timed_waiter again(f);
      CHECK(judged(again, f, l, 0s, api, true));
    } else
      CHECK(judged(f, f, l, 0s, api, true));
    CHECK(read(f) == expected(how));
  }
  delete l.data;
}
SCENARIO(C16, waiter_future, o.preempt = 4; o.preempt_max = -1; o.env = 2) { waiter<pc::future<int>>(true, 2); }
SCENARIO(C16, waiter_shared, o.preempt = 4; o.preempt_max = -1; o.env = 2) { waiter<pc::shared_future<int>>(true, 2); }
SCENARIO(C16, member_future, o.preempt = 4; o.preempt_max = -1; o.env = 2) { waiter<pc::future<int>>(false, 2); }
SCENARIO(C16, member_shared, o.preempt = 4; o.preempt_max = -1; o.env = 2) { waiter<pc::shared_future<int>>(false, 2); }

// ---- readiness wakes the waiter long before its deadline (virtual time: nothing else may make it return)
template <typename Fut> void woken(bool own) {
  init();
  Log l;
  {
    const int how = mc::choose(N_HOW), api = mc::choose(N_API);
    pc::promise<int> p;
    Fut f = p.get_future();
    const long long start = mc::now_ns();
    thr t([&p, l, how] {
      std::this_thread::sleep_for(1s);
      finish(p, l, how);
    });
    bool ready;
    if (own) {
      pc::timed_waiter w(f);
      ready = judged(w, f, l, 10h, api, false);
    } else
      ready = judged(f, f, l, 10h, api, true);
    CHECK(ready, "the waiter slept through the completion");
    CHECK(mc::now_ns() < start + nanoseconds(10h).count());
  }
  delete l.data;
}
SCENARIO(C16, woken_future, o.preempt = -1) { woken<pc::future<int>>(true); }
SCENARIO(C16, woken_shared, o.preempt = -1) { woken<pc::shared_future<int>>(true); }
SCENARIO(C16, woken_member, o.preempt = -1) { mc::choose(2) ? woken<pc::future<int>>(false) : woken<pc::shared_future<int>>(false); }

// ---- nothing is supplied: every timed wait times out, at its deadline
SCENARIO(C16, never, o.env = 2) {
  init();
  Log l;
  {
    const int api = mc::choose(N_API), drop = mc::choose(3);
    const nanoseconds d = mc::choose(2) ? nanoseconds(3s) : nanoseconds(0);
    pc::promise<int> p;
    auto f = p.get_future();
    pc::timed_waiter w(f);
    pc::future<int> keep;
    if (drop == 1)
      f = pc::future<int>(); // nobody will ever notify this waiter
    else if (drop == 2)
      keep = std::move(f);
    for (int i = 0; i < 2; i++) {
      const long long start = mc::now_ns();
      CHECK(timed(w, d, api) == pc::future_status::timeout);
      CHECK(mc::now_ns() >= start + d.count());
    }
    if (drop == 0)
      CHECK(!judged(f, f, l, d, api, true));
  }
  delete l.data;
}
// ---- polling until ready terminates and never goes back
template <typename Fut> void poll() {
  init();
  Log l;
  {
    pc::promise<int> p;
    Fut f = p.get_future();
    pc::timed_waiter w(f);
    thr t([&p, l] {
      std::this_thread::sleep_for(2500ms);
      finish(p, l, VALUE);
    });
    int n = 0;
    while (!judged(w, f, l, 1s, n % N_API, false)) {
      n++;
      CHECK(n < 4, "still timing out after the completion");
    }
    for (int api = 0; api < N_API; api++)
      CHECK(judged(w, f, l, 0s, api, false), "readiness was taken back");
    mc::outcome("%d timeouts", n);
  }
  delete l.data;
}
SCENARIO(C16, poll_future, o.preempt = 4; o.preempt_max = -1) { poll<pc::future<int>>(); }
SCENARIO(C16, poll_shared, o.preempt = 4; o.preempt_max = -1) { poll<pc::shared_future<int>>(); }

// ---- several waiters, some through copies of the waiter, some through their own
template <typename Fut> static void many(bool copies) {
  init();
  Log l;
  {
    pc::promise<int> p;
    Fut f = p.get_future();
    pc::timed_waiter w0(f), w1(f);
    thr a([&, w = copies ? w0 : w1]() mutable {
      if (!judged(w, f, l, 3s, FOR_, false))
        mc::outcome("timeout");
    });
    thr b([&]() mutable {
      pc::timed_waiter w = copies ? w0 : pc::timed_waiter(f);
      if (!judged(w, f, l, 4s, UNTIL_STEADY, false))
        mc::outcome("timeout");
    });
    finish(p, l, VALUE);
    CHECK(judged(w0, f, l, 0s, UNTIL_SYSTEM, false));
  }
  delete l.data;
}
SCENARIO(C16, many_own, o.preempt = 3; o.preempt_max = 5; o.env = 1; o.env_max = 2) { many<pc::shared_future<int>>(false); }
SCENARIO(C16, many_copies, o.preempt = 3; o.preempt_max = 5; o.env = 1; o.env_max = 2) { many<pc::shared_future<int>>(true); }
SCENARIO(C16, many_own_u, o.preempt = 3; o.preempt_max = 5; o.env = 1; o.env_max = 2) { many<pc::future<int>>(false); }
SCENARIO(C16, many_copies_u, o.preempt = 3; o.preempt_max = 5; o.env = 1; o.env_max = 2) { many<pc::future<int>>(true); }

// ---- all waiters are woken by one completion, without help from time
template <typename Fut> static void all_woken() {
  init();
  Log l;
  {
    pc::promise<int> p;
    Fut f = p.get_future();
    pc::timed_waiter w0(f);
    const int copies = mc::choose(3); // copies of one waiter, one each, the future's own functions
    const int api = mc::choose(N_API);
    std::vector<thr> ts;
    for (int i = 0; i < 2; i++)
      ts.emplace_back([&, w = copies == 0 ? w0 : pc::timed_waiter(f)]() mutable {
        const bool r = copies == 2 ? judged(f, f, l, 10h, api, true) : judged(w, f, l, 10h, api, false);
        CHECK(r, "the waiter slept through the completion");
        CHECK(mc::now_ns() < nanoseconds(9h).count());
      });
    std::this_thread::sleep_for(1s);
    finish(p, l, VALUE);
  }
  delete l.data;
}
SCENARIO(C16, all_woken, o.preempt = 3; o.preempt_max = 4) { all_woken<pc::shared_future<int>>(); }
SCENARIO(C16, all_woken_u, o.preempt = 3; o.preempt_max = 4) { all_woken<pc::future<int>>(); }
// ---- the waiter object goes away or is replaced while a completion is running
SCENARIO(C16, abandoned, o.preempt = 4; o.preempt_max = -1; o.env = 2) {
  init();
  Log l;
  {
    const int api = mc::choose(N_API), how = mc::choose(3);
    pc::promise<int> p;
    auto f = p.get_future();
    pc::promise<int> p2;
    auto f2 = p2.get_future();
    thr t([&p, l] { finish(p, l, VALUE); });
    {
      pc::timed_waiter w(f);
      judged(w, f, l, 1s, api, false);
      if (how == 1) {
        w = pc::timed_waiter(f2); // now bound to another future
        CHECK(timed(w, 1s, api) == pc::future_status::timeout);
        p2.set_value(1);
        CHECK(timed(w, 0s, api) == pc::future_status::ready);
      } else if (how == 2) {
        pc::timed_waiter v = std::move(w);
        judged(v, f, l, 1s, api, false);
      }
    }
    CHECK(get_outcome(f) == 5);
  }
  delete l.data;
}
// ---- the waiter keeps working after the future was used otherwise
SCENARIO(C16, used_future, o.preempt = 3; o.preempt_max = 5; o.env = 1) {
  init();
  Log l;
  {
    const int use = mc::choose(4);
    pc::promise<int> p;
    auto f = p.get_future();
    pc::timed_waiter w(f);
    pc::future<int> g;
    pc::shared_future<int> s;
    if (use == 0)
      g = f.next([](int v) { return v; });
    else if (use == 1)
      s = f.share();
    else if (use == 2)
      g = f.detach();
    else
      g = std::move(f);
    const long long start = mc::now_ns();
    thr t([&p, l] { finish(p, l, VALUE); });
    const auto st = w.wait_for(2s);
    if (st == pc::future_status::ready)
      CHECK(l.begun.get() && *l.data == 77);
    else
      CHECK(mc::now_ns() >= start + nanoseconds(2s).count());
    t = thr();
    CHECK(w.wait_for(0s) == pc::future_status::ready);
    CHECK((use == 1 ? get_outcome(s) : get_outcome(g)) == 5);
  }
  delete l.data;
}
// ---- continuation futures, combinators, pool tasks
SCENARIO(C16, derived, o.preempt = 3; o.preempt_max = 5; o.env = 1) {
  init();
  Log l;
  {
    const int what = mc::choose(4);
    pc::promise<int> p;
    pc::future<int> f;
    if (what == 0)
      f = p.get_future().next([](int v) { return v; });
    else if (what == 1)
      f = pc::when_all(p.get_future()).next([](std::tuple<pc::future<int>> t) { return std::get<0>(t).get(); });
    else if (what == 2)
      f = p.get_future().next([](int v) { return pc::make_ready_future(v); });
    else
      f = pc::when_any(p.get_future()).next([](pc::when_any_result<std::tuple<pc::future<int>>> r) { return std::get<0>(r.futures).get(); });
    thr t([&p, l] { finish(p, l, VALUE); });
    if (mc::choose(2)) {
      pc::timed_waiter w(f);
      judged(w, f, l, 5s, FOR_, false);
    } else
      judged(f, f, l, 5s, UNTIL_STEADY, true);
    t = thr();
    CHECK(judged(f, f, l, 0s, FOR_, true));
    CHECK(get_outcome(f) == 5);
  }
  delete l.data;
}
SCENARIO(C16, pool_task, o.preempt = 3; o.preempt_max = 5; o.env = 1) {
  init();
  long data = 0;
  pc::static_thread_pool pool(1);
  auto f = pc::async(pool.executor(), [&data] {
    data = 9;
    return 1003;
  });
  pc::timed_waiter w(f);
  const auto s = w.wait_for(1s);
  if (s == pc::future_status::ready)
    CHECK(f.is_ready() && data == 9);
  else
    CHECK(mc::now_ns() >= nanoseconds(1s).count());
  CHECK(get_outcome(f) == 3);
  mc::outcome("%s", s == pc::future_status::ready ? "ready" : "timeout");
}
// ---- extreme deadlines
SCENARIO(C16, extremes, o.preempt = 3; o.preempt_max = -1) {
  init();
  Log l;
  {
    pc::promise<int> p;
    pc::shared_future<int> f = p.get_future();
    pc::timed_waiter w(f);
    using sc = std::chrono::steady_clock;
    using yc = std::chrono::system_clock;
    CHECK(w.wait_for(nanoseconds::min() / 4) == pc::future_status::timeout);
    CHECK(w.wait_until(sc::time_point()) == pc::future_status::timeout);
    CHECK(w.wait_until(yc::time_point()) == pc::future_status::timeout);
    CHECK(f.wait_until(yc::time_point()) == pc::future_status::timeout);
    CHECK(f.wait_for(0s) == pc::future_status::timeout);
    thr t([&p, l] { finish(p, l, VALUE); });
    const int k = mc::choose(4);
    if (k == 0)
      CHECK(w.wait_for(1h * 24 * 365 * 50) == pc::future_status::ready);
    else if (k == 1)
      CHECK(w.wait_until(sc::now() + 1h * 24 * 365 * 50) == pc::future_status::ready);
    else if (k == 2)
      CHECK(w.wait_until(yc::now() + 1h * 24 * 365 * 50) == pc::future_status::ready);
    else
      CHECK(f.wait_for(1h * 24 * 365 * 50) == pc::future_status::ready);
    CHECK(f.is_ready() && *l.data == 77);
    t = thr();
    CHECK(w.wait_for(nanoseconds::min() / 4) == pc::future_status::ready);
    CHECK(w.wait_until(sc::time_point()) == pc::future_status::ready);
    CHECK(f.wait_until(yc::time_point()) == pc::future_status::ready);
  }
  delete l.data;
}

// ---- the waiter is notified in time but gets the processor only after its deadline
template <typename Fut> void late_wake(bool own) {
  init();
  Log l;
  {
    const int how = mc::choose(N_HOW), api = mc::choose(N_API);
    pc::promise<int> p;
    Fut f = p.get_future();
    thr t([&p, l, how] {
      finish(p, l, how);
      std::this_thread::sleep_for(20h); // moves the clock past the deadline
    });
    bool ready;
    if (own) {
      pc::timed_waiter w(f);
      ready = judged(w, f, l, 10h, api, false);
    } else
      ready = judged(f, f, l, 10h, api, true);
    mc::outcome("%s %d", ready ? "ready" : "timeout", mc::now_ns() > nanoseconds(10h).count());
  }
  delete l.data;
}
SCENARIO(C16, late_wake_future, o.preempt = 3; o.preempt_max = -1; o.env = 2) { late_wake<pc::future<int>>(true); }
SCENARIO(C16, late_wake_shared, o.preempt = 3; o.preempt_max = -1; o.env = 2) { late_wake<pc::shared_future<int>>(true); }
SCENARIO(C16, late_wake_future_m, o.preempt = 3; o.preempt_max = -1; o.env = 2) { late_wake<pc::future<int>>(false); }
SCENARIO(C16, late_wake_shared_m, o.preempt = 3; o.preempt_max = -1; o.env = 2) { late_wake<pc::shared_future<int>>(false); }

// ---- a wait for a result that does not come ends at its deadline, spurious wake-ups or not
template <typename Fut> void deadline(bool own) {
  init();
  {
    const int api = mc::choose(N_API);
    auto x = pc::make_promise<int>();
    Fut f = std::move(x.second);
    thr t([] {
      std::this_thread::sleep_for(2h);
      std::this_thread::sleep_for(2h);
    });
    long long start;
    pc::future_status s;
    if (own) {
      pc::timed_waiter w(f);
      start = mc::now_ns();
      s = timed(w, 5h, api);
    } else {
      start = mc::now_ns();
      s = timed(f, 5h, api);
    }
    CHECK(s == pc::future_status::timeout, "ready reported for a future without result");
    const long long d = mc::now_ns() - start, h = nanoseconds(1h).count();
    CHECK(d >= 5 * h, "timeout before the deadline");
    CHECK(d <= 5 * h, "the wait went on for %lld ns after its deadline", d - 5 * h);
    mc::outcome("%lld", d / h);
  }
}
SCENARIO(C16, deadline_future, o.preempt = 3; o.preempt_max = -1; o.env = 3) { deadline<pc::future<int>>(true); }
SCENARIO(C16, deadline_shared, o.preempt = 3; o.preempt_max = -1; o.env = 3) { deadline<pc::shared_future<int>>(true); }
SCENARIO(C16, deadline_future_m, o.preempt = 3; o.preempt_max = -1; o.env = 3) { deadline<pc::future<int>>(false); }
SCENARIO(C16, deadline_shared_m, o.preempt = 3; o.preempt_max = -1; o.env = 3) { deadline<pc::shared_future<int>>(false); }
