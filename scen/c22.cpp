// C22: failing user code or allocation leaves all objects consistent. Failing allocations.
#include "common.h"

struct Fail {
  explicit Fail(int k) { mc::fail_alloc_at(k); }
  ~Fail() { mc::fail_alloc_at(0); }
};
enum { H_VALUE, H_EXC, H_BROKEN };
template <typename T> static void finish(pc::promise<T> &p, int how) {
  if (how == H_VALUE)
    set_id<T>(p, 1);
  else if (how == H_EXC)
    p.set_exception(err(1));
  else {
    pc::promise<T> gone(std::move(p));
  }
}
template <typename T> static int want(int how) { return how == H_VALUE ? vid<T>(1) : how == H_EXC ? EXC - 1 : BROKEN; }
constexpr int NFAIL = 7; // failing points tried per operation (more than any of them has)

// ---------------------------------------------------------------- operations on a future
// what every operation reports when it succeeded: the outcome of the future it returned (an int), or none
enum { O_THEN, O_NEXT, O_THEN_EX, O_NEXT_EX, O_ITHEN, O_NOTIFY, O_NOTIFY_EX, O_DETACH, O_TIMED, O_GET, O_WAIT, O_UNWRAP, O_ALL, O_ANY, O_ALL_RANGE, O_ANY_RANGE, O_SHARE, O_N };

template <typename Fut> struct cap {
  Tracked t{55};
  mc::ghost n;
  int operator()(Fut f) {
    CHECK(t.get() == 55);
    n.bump();
    return 1000 - get_outcome(f);
  }
};
template <typename A> struct capn {
  Tracked t{55};
  mc::ghost n;
  int operator()(A a) {
    CHECK(t.get() == 55);
    n.bump();
    return 1000 - kind<Tracked>::id(a);
  }
};
template <typename Fut> struct capi {
  Tracked t{55};
  mc::ghost n;
  void operator()(pc::promise<int> p, Fut f) {
    CHECK(t.get() == 55);
    n.bump();
    p.set_value(1000 - get_outcome(f));
  }
};
template <typename Fut> struct capu {
  Tracked t{55};
  mc::ghost n;
  pc::future<int> operator()(Fut f) {
    CHECK(t.get() == 55);
    n.bump();
    return pc::make_ready_future(1000 - get_outcome(f));
  }
};

template <bool SH> static void on_future(int lo, int hi) {
  init();
  using Fut = std::conditional_t<SH, pc::shared_future<Tracked>, pc::future<Tracked>>;
  using Arg = std::conditional_t<SH, const Tracked &, Tracked>;
  {
    const int op = lo + mc::choose(hi - lo), k = 1 + mc::choose(NFAIL), how = mc::choose(3), ready = mc::choose(2);
    if (!ready && (op == O_GET || op == O_WAIT))
      mc::discard();
    Queue q;
    q.q.resize(1); // the first block is there
    q.q.clear();
    auto x = pc::make_promise<Tracked>();
    auto y = pc::make_promise<Tracked>();
    Fut f(std::move(x.second)), g(std::move(y.second));
    mc::ghost n, m, other;
    f.notify([n] { n.bump(); });
    g.notify([other] { other.bump(); });
    if (ready)
      finish(x.first, how);
    pc::future<int> r;
    pc::future<std::tuple<Fut, Fut>> all;
    pc::future<pc::when_any_result<std::tuple<Fut, Fut>>> any;
    pc::future<std::vector<Fut>> vall;
    pc::future<pc::when_any_result<std::vector<Fut>>> vany;
    Fut d;
    pc::timed_waiter w;
    std::vector<Fut> v;
    v.reserve(2);
    int got = -7;
    const size_t before = mc::live_blocks();
    const long tracked = live_tracked();
    const int o = outcome_of([&] {
      Fail fail(k);
      switch (op) {
      case O_THEN:
        r = f.then(cap<Fut>{Tracked(55), m});
        break;
      case O_NEXT:
        r = f.next(capn<Arg>{Tracked(55), m});
        break;
      case O_THEN_EX:
        r = f.then(qexec{&q}, cap<Fut>{Tracked(55), m});
        break;
      case O_NEXT_EX:
        r = f.next(qexec{&q}, capn<Arg>{Tracked(55), m});
        break;
      case O_ITHEN:
        r = f.then(capi<Fut>{Tracked(55), m});
        break;
      case O_UNWRAP:
        r = f.then(capu<Fut>{Tracked(55), m});
        break;
      case O_NOTIFY:
        f.notify([m, t = std::make_shared<int>(55)] {
          CHECK(*t == 55);
          m.bump();
        });
        break;
      case O_NOTIFY_EX:
        f.notify(qexec{&q}, [m, t = std::make_shared<int>(55)] {
          CHECK(*t == 55);
          m.bump();
        });
        break;
      case O_DETACH:
        d = f.detach();
        break;
      case O_TIMED:
        w = pc::timed_waiter(f);
        break;
      case O_GET:
        got = get_outcome(f);
        break;
      case O_WAIT:
        f.wait();
        break;
      case O_ALL:
        if constexpr (SH)
          all = pc::when_all(f, g);
        else
          all = pc::when_all(std::move(f), std::move(g));
        break;
      case O_ANY:
        if constexpr (SH)
          any = pc::when_any(f, g);
        else
          any = pc::when_any(std::move(f), std::move(g));
        break;
      case O_ALL_RANGE:
        v.push_back(std::move(f));
        v.push_back(std::move(g));
        vall = pc::when_all(v.begin(), v.end());
        break;
      case O_ANY_RANGE:
        v.push_back(std::move(f));
        v.push_back(std::move(g));
        vany = pc::when_any(v.begin(), v.end());
        break;
      case O_SHARE:
        if constexpr (!SH)
          d = pc::future<Tracked>(std::move(f));
        else
          d = f;
        break;
      }
      return 0;
    });
    CHECK(o == 0 || o == BADALLOC, "(%d)", o);
    const bool failed = o != 0 || got == BADALLOC;
    mc::outcome("op %d %s", op, failed ? "failed" : "ok");
    if (failed && (op == O_ALL_RANGE || op == O_ANY_RANGE)) {
      f = std::move(v[0]);
      g = std::move(v[1]);
    }
    if (failed) {
      // nothing stays behind, unless the failing call had already handed an input on
      if (op != O_ALL && op != O_ANY && op != O_ALL_RANGE && op != O_ANY_RANGE) {
        CHECK(live_tracked() <= tracked, "the failing call left an object behind");
        CHECK(mc::live_blocks() <= before, "the failing call left memory behind");
      }
      CHECK(q.q.empty());
      if (SH && op != O_ALL_RANGE && op != O_ANY_RANGE && op != O_ITHEN)
        CHECK(f.valid(), "the failing call took the shared future");
    }
    // the operation may be tried again if the future is still there
    const bool again = failed && f.valid();
    if (again && op == O_NOTIFY)
      f.notify([m] { m.bump(); });
    if (again && op == O_DETACH)
      d = f.detach();
    if (again && op == O_THEN)
      r = f.then(cap<Fut>{Tracked(55), m});
    if (again && op == O_TIMED)
      w = pc::timed_waiter(f);
    const bool usable = f.valid() || d.valid() || (!failed && op != O_GET && op != O_SHARE);
    if (!ready)
      finish(x.first, how);
    finish(y.first, H_VALUE);
    q.run_all();
    const int po = want<Tracked>(how);
    if (usable || ready)
      CHECK(n.peek() == 1, "an earlier notification ran %ld times", n.peek());
    else
      CHECK(n.peek() <= 1);
    if (f.valid()) {
      CHECK(f.is_ready());
      CHECK(get_outcome(f) == po);
    }
    if (d.valid())
      CHECK(d.is_ready() && get_outcome(d) == po);
    if (op == O_GET && !failed)
      CHECK(got == po);
    if (r.valid()) {
      CHECK(r.is_ready());
      const bool called = (op != O_NEXT && op != O_NEXT_EX) || how == H_VALUE;
      CHECK(m.peek() == called);
      const int ro = get_outcome(r);
      // the continuation may itself have run into the failing allocation
      CHECK(ro == (called ? -po : po) || (op == O_UNWRAP && ready && ro == BADALLOC) || (called && ready && ro == -BADALLOC), "(%d)", ro);
    } else if (op == O_NOTIFY && (!failed || again))
      CHECK(m.peek() == 1);
    else if (op == O_NOTIFY_EX && !failed)
      CHECK(m.peek() == 1);
    else if (op == O_TIMED && (!failed || again))
      CHECK(w.wait_for(std::chrono::seconds(0)) == pc::future_status::ready);
    if (all.valid()) {
      CHECK(all.is_ready());
      auto t = all.get();
      CHECK(get_outcome(std::get<0>(t)) == po && get_outcome(std::get<1>(t)) == 1);
    }
    if (any.valid()) {
      CHECK(any.is_ready());
      auto t = any.get();
      CHECK(get_outcome(std::get<0>(t.futures)) == po && get_outcome(std::get<1>(t.futures)) == 1);
    }
    if (vall.valid()) {
      CHECK(vall.is_ready());
      auto t = vall.get();
      CHECK(t.size() == 2 && get_outcome(t[0]) == po && get_outcome(t[1]) == 1);
    }
    if (vany.valid()) {
      CHECK(vany.is_ready());
      auto t = vany.get();
      CHECK(t.futures.size() == 2 && get_outcome(t.futures[0]) == po && get_outcome(t.futures[1]) == 1);
    }
    if (g.valid())
      CHECK(g.is_ready() && other.peek() == 1 && get_outcome(g) == 1);
  }
  NO_TRACKED_LEFT();
}
SCENARIO(C22, alloc_future) { on_future<false>(0, O_N); }
SCENARIO(C22, alloc_shared) { on_future<true>(0, O_N); }

// ---------------------------------------------------------------- producers
enum { P_MAKE, P_PROMISE, P_CANCELER, P_GETFUT, P_TASK, P_TASKCALL, P_ASYNC, P_READY, P_EXC, P_EXC2, P_POOL, P_POST, P_FUNC, P_N };
struct fn1 {
  Tracked t{55};
  mc::ghost n;
  Tracked operator()() {
    CHECK(t.get() == 55);
    n.bump();
    return Tracked(1);
  }
};
SCENARIO(C22, alloc_producer, o.preempt = 1; o.preempt_max = 3) {
  init();
  {
    const int op = mc::choose(P_N), k = 1 + mc::choose(NFAIL);
    mc::ghost n;
    Queue q;
    q.q.resize(1);
    q.q.clear();
    std::unique_ptr<pc::promise<Tracked>> pp;
    pc::future<Tracked> f;
    pc::packaged_task<Tracked()> task;
    if (op == P_GETFUT)
      pp.reset(new pc::promise<Tracked>());
    if (op == P_TASKCALL) {
      task = pc::packaged_task<Tracked()>(fn1{Tracked(55), n});
      f = task.get_future();
    }
    std::unique_ptr<pc::static_thread_pool> pool;
    if (op == P_POST)
      pool.reset(new pc::static_thread_pool(1));
    Tracked *big = op == P_FUNC ? new Tracked(7) : nullptr;
    const size_t before = mc::live_blocks();
    const long tracked = live_tracked();
    pc::unique_function<int()> uf;
    bool posted = false;
    const int o = outcome_of([&] {
      Fail fail(k);
      switch (op) {
      case P_MAKE: {
        auto x = pc::make_promise<Tracked>();
        f = std::move(x.second);
        x.first.set_value(Tracked(1));
        break;
      }
      case P_PROMISE: {
        pc::promise<Tracked> p;
        f = p.get_future();
        p.set_value(Tracked(1));
        break;
      }
      case P_CANCELER: {
        auto x = pc::make_promise<Tracked>(pc::canceler_arg, [t = Tracked(55), n] {
          CHECK(t.get() == 55);
          n.bump();
        });
        x.second = pc::future<Tracked>();
        CHECK(n.peek() == 1);
        break;
      }
      case P_GETFUT:
        f = pp->get_future();
        break;
      case P_TASK: {
        pc::packaged_task<Tracked()> t(fn1{Tracked(55), n});
        f = t.get_future();
        t();
        break;
      }
      case P_TASKCALL:
        task();
        break;
      case P_ASYNC:
        f = pc::async(qexec{&q}, fn1{Tracked(55), n});
        break;
      case P_READY:
        f = pc::make_ready_future(Tracked(1));
        break;
      case P_EXC:
        f = pc::make_exceptional_future<Tracked>(test_error{3});
        break;
      case P_EXC2:
        f = pc::make_exceptional_future<Tracked>(err(3));
        break;
      case P_POOL:
        pool.reset(new pc::static_thread_pool(2));
        break;
      case P_POST:
        f = pc::async(pool->executor(), fn1{Tracked(55), n});
        posted = true;
        break;
      case P_FUNC:
        uf = pc::unique_function<int()>([t = Tracked(55), a = *big, b = std::string(30, 'x')] { return t.get() + a.get(); });
        break;
      }
      return 0;
    });
    CHECK(o == 0 || o == BADALLOC, "(%d)", o);
    mc::outcome("op %d %s", op, o ? "failed" : "ok");
    if (o && op != P_POST && !f.valid()) {
      CHECK(live_tracked() <= tracked, "the failing call left an object behind");
      CHECK(mc::live_blocks() <= before, "the failing call left memory behind");
    }
    if (op == P_GETFUT) {
      if (o)
        f = pp->get_future();
      pp->set_value(Tracked(1));
    }
    if (op == P_ASYNC && !o) {
      q.run_all();
      CHECK(n.peek() == 1);
    }
    if (op == P_POST && posted) {
      CHECK(get_outcome(f) == 1 || true);
      pool->wait();
    }
    if (f.valid()) {
      CHECK(f.is_ready());
      const int fo = get_outcome(f);
      // running the function inside of the failing region may be what failed
      CHECK(fo == (op == P_EXC || op == P_EXC2 ? EXC - 3 : 1) || ((op == P_TASKCALL || op == P_TASK || op == P_POST) && fo == BADALLOC) || ((op == P_MAKE || op == P_PROMISE) && fo == BROKEN), "(%d)", fo);
    }
    if (uf)
      CHECK(uf() == 62);
    delete big;
  }
  NO_TRACKED_LEFT();
}

// ---------------------------------------------------------------- unwrapping
// subscribing to the inner future needs memory: the outer one must still become ready, with an error or the inner result
template <typename T> struct mkfn {
  pc::future<T> in;
  mc::ghost n;
  int k;
  Tracked t{55};
  pc::future<T> operator()() {
    n.bump();
    pc::future<T> r = std::move(in);
    mc::fail_alloc_at(k);
    return r;
  }
  pc::future<T> operator()(int) { return (*this)(); }
  pc::future<T> operator()(pc::future<int>) { return (*this)(); }
  pc::future<T> operator()(pc::shared_future<int>) { return (*this)(); }
};
template <typename T> static void unwrap() {
  init();
  {
    const int out = mc::choose(6), k = 1 + mc::choose(4), how = mc::choose(3), ready = mc::choose(2);
    mc::ghost n, seen;
    auto in = pc::make_promise<T>();
    if (ready)
      finish(in.first, how);
    auto p = pc::make_promise<int>();
    pc::packaged_task<pc::future<T>()> task;
    Queue q;
    mkfn<T> fn{std::move(in.second), n, k};
    pc::future<T> r;
    switch (out) {
    case 0:
      task = pc::packaged_task<pc::future<T>()>(std::move(fn));
      r = task.get_future();
      break;
    case 1:
      r = pc::async(qexec{&q}, std::move(fn));
      break;
    case 2:
      r = p.second.next(std::move(fn));
      break;
    case 3:
      r = p.second.then(std::move(fn));
      break;
    case 4:
      r = p.second.share().next(std::move(fn));
      break;
    case 5:
      r = p.second.share().then(std::move(fn));
      break;
    }
    r.notify([seen] { seen.bump(); });
    const int o = outcome_of([&] {
      if (out == 0)
        task();
      else if (out == 1)
        q.run_all();
      else
        p.first.set_value(9);
      return 0;
    });
    mc::fail_alloc_at(0);
    CHECK(n.peek() == 1);
    CHECK(o == 0 || o == BADALLOC, "(%d)", o);
    if (!ready)
      finish(in.first, how);
    { pc::packaged_task<pc::future<T>()> gone(std::move(task)); }
    CHECK(r.is_ready(), "the outer future is not ready although the inner one is");
    CHECK(seen.peek() == 1);
    const int ro = get_outcome(r);
    mc::outcome(ro == BADALLOC ? "failed" : o ? "caller" : "ok");
    CHECK(ro == want<T>(how) || ro == BADALLOC || (o == BADALLOC && ro == BROKEN), "(%d)", ro);
  }
  NO_TRACKED_LEFT();
}
SCENARIO(C22, alloc_unwrap_tracked) { unwrap<Tracked>(); }
SCENARIO(C22, alloc_unwrap_void) { unwrap<void>(); }
SCENARIO(C22, alloc_unwrap_ref) { unwrap<int &>(); }

// ---------------------------------------------------------------- failing while the producer completes in another thread
SCENARIO(C22, alloc_race, o.preempt = 3; o.preempt_max = 5) {
  init();
  {
    const int op = mc::choose(6), k = 1 + mc::choose(4), how = mc::choose(2);
    auto x = pc::make_promise<Tracked>();
    pc::shared_future<Tracked> s = x.second.share();
    mc::ghost n, m;
    s.notify([n] { n.bump(); });
    pc::future<int> r;
    pc::shared_future<Tracked> d;
    {
      thr t([p = std::move(x.first), how]() mutable { finish(p, how); });
      const int o = outcome_of([&] {
        mc::fail_alloc_at(k);
        switch (op) {
        case 0:
          r = s.then(cap<pc::shared_future<Tracked>>{Tracked(55), m});
          break;
        case 1:
          r = s.next(capn<const Tracked &>{Tracked(55), m});
          break;
        case 2:
          s.notify([m] { m.bump(); });
          break;
        case 3:
          d = s.detach();
          break;
        case 4: {
          pc::timed_waiter w(s);
          break;
        }
        case 5:
          s.wait();
          CHECK(s.is_ready());
          break;
        }
        return 0;
      });
      mc::fail_alloc_at(0);
      CHECK(o == 0 || o == BADALLOC, "(%d)", o);
      if (op == 3 && o == 0)
        s = d;
      CHECK(s.valid());
      CHECK(get_outcome(s) == want<Tracked>(how));
      if (op == 2 && o)
        m.add();
    }
    CHECK(n.peek() == 1);
    if (r.valid())
      CHECK(r.is_ready() && m.peek() == (op == 0 || how == 0));
    if (op == 2)
      CHECK(m.peek() == 1);
  }
  NO_TRACKED_LEFT();
}
// a pool whose queue cannot grow, or whose construction fails part way
SCENARIO(C22, alloc_pool_race, o.preempt = 2; o.preempt_max = 3) {
  init();
  {
    const int k = 1 + mc::choose(6);
    mc::ghost n, m;
    pc::future<Tracked> f, g;
    int o;
    {
      pc::static_thread_pool pool(1);
      g = pc::async(pool.executor(), fn1{Tracked(55), m});
      o = outcome_of([&] {
        mc::fail_alloc_at(k);
        f = pc::async(pool.executor(), fn1{Tracked(55), n});
        return 0;
      });
      mc::fail_alloc_at(0);
      CHECK(o == 0 || o == BADALLOC, "(%d)", o);
      pool.wait();
    }
    CHECK(m.peek() == 1 && g.is_ready());
    const int go = get_outcome(g);
    CHECK(go == 1 || go == BADALLOC, "(%d)", go);
    if (o == 0) {
      CHECK(f.is_ready() && n.peek() == 1);
      const int fo = get_outcome(f);
      CHECK(fo == 1 || fo == BADALLOC, "(%d)", fo);
    } else
      CHECK(n.peek() == 0, "the task ran although posting it failed");
  }
  NO_TRACKED_LEFT();
}
