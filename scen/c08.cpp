// C08: dropping the last future cancels exactly the work that has not started.
#include "common.h"

// ---------------------------------------------------------------- sequential: all chains, dropped at every moment
struct Log {
  mc::ghost started[5], ended[5];
  long s(int i) const { return started[i].peek(); }
};
struct StageFn { // user function of stage i with a captured object
  int i;
  Log *log;
  Tracked cap;
  int run(int v) {
    log->started[i].bump();
    CHECK(cap.get() == 40 + i);
    log->ended[i].bump();
    return v + 1;
  }
};
enum { N_KINDS = 7 };
// attaches stage i to f; e: 0 in place, 1 on the queue
static pc::future<int> attach_stage(pc::future<int> f, int kind, int e, int i, Log *log, Queue *q) {
  StageFn fn{i, log, Tracked(40 + i)};
  switch (kind) {
  case 0: {
    auto c = [fn = std::move(fn)](pc::future<int> x) mutable { return fn.run(x.get()); };
    return e ? f.then(qexec{q}, std::move(c)) : f.then(std::move(c));
  }
  case 1: {
    auto c = [fn = std::move(fn)](int x) mutable { return fn.run(x); };
    return e ? f.next(qexec{q}, std::move(c)) : f.next(std::move(c));
  }
  case 2: {
    auto c = [fn = std::move(fn)](pc::shared_future<int> x) mutable { return fn.run(x.get()); };
    pc::shared_future<int> s = f.share();
    return e ? s.then(qexec{q}, std::move(c)) : s.then(std::move(c));
  }
  case 3: {
    auto c = [fn = std::move(fn)](int x) mutable { return fn.run(x); };
    pc::shared_future<int> s = f.share();
    return e ? s.next(qexec{q}, std::move(c)) : s.next(std::move(c));
  }
  case 4: { // returns a future: ready
    auto c = [fn = std::move(fn)](int x) mutable { return pc::make_ready_future(fn.run(x)); };
    return e ? f.next(qexec{q}, std::move(c)) : f.next(std::move(c));
  }
  case 5: { // returns a future: the work is posted once more
    auto c = [fn = std::move(fn), q](pc::future<int> x) mutable {
      return pc::async(qexec{q}, [fn = std::move(fn), v = x.get()]() mutable { return fn.run(v); });
    };
    return e ? f.then(qexec{q}, std::move(c)) : f.then(std::move(c));
  }
  default: {
    auto c = [fn = std::move(fn)](pc::promise<int> p, pc::future<int> x) mutable { p.set_value(fn.run(x.get())); };
    return e ? f.then(qexec{q}, std::move(c)) : f.then(std::move(c));
  }
  }
}
struct Source {
  int way;
  pc::promise<int> p{pc::make_promise<int>().first};
  pc::packaged_task<int()> t;
  pc::future<int> f;
  Source(int w, Log *log, Queue *q) : way(w) {
    auto fn = [fn = StageFn{0, log, Tracked(40)}]() mutable { return fn.run(0); };
    if (w == 0) {
      auto x = pc::make_promise<int>();
      p = std::move(x.first);
      f = std::move(x.second);
    } else if (w == 1) {
      t = pc::packaged_task<int()>(std::move(fn));
      f = t.get_future();
    } else
      f = pc::async(qexec{q}, std::move(fn));
  }
  void fire(Log *log) {
    if (way == 0) {
      log->started[0].bump();
      log->ended[0].bump();
      p.set_value(1);
    } else if (way == 1)
      t();
  }
};
static void chains(int depth, int kinds) {
  init();
  {
    Queue q;
    Log log;
    Source src(mc::choose(3), &log, &q);
    pc::future<int> f = std::move(src.f);
    for (int i = 1; i <= depth; i++) {
      const int k = kinds == 2 ? (mc::choose(2) ? 5 : 0) : mc::choose(kinds);
      f = attach_stage(std::move(f), k, mc::choose(2), i, &log, &q);
    }
    // progress made before the drop: nothing, source fired, then queue steps
    const int steps = mc::choose(depth + 4);
    bool fired = false;
    int ran = 0;
    if (steps > 0) {
      src.fire(&log);
      fired = true;
      for (int i = 1; i < steps; i++)
        ran += q.run_one();
      if (ran != steps - 1)
        mc::discard(); // nothing left to run: same as fewer steps
    }
    const bool ready = f.is_ready();
    long before[5];
    for (int i = 0; i <= depth; i++)
      before[i] = log.s(i);
    const bool drop = !ready && !mc::choose(2);
    if (drop) {
      f = pc::future<int>();
      CHECK(live_tracked() == 0, "cancelled functions keep %ld captured objects", live_tracked());
    }
    if (!fired) {
      if (!(drop && src.way == 0))
        src.fire(&log);
      else
        src.p.set_value(1); // nobody awaits it
    }
    q.run_all();
    for (int i = 0; i <= depth; i++) {
      CHECK(log.s(i) == log.ended[i].peek());
      if (drop)
        CHECK(log.s(i) == before[i], "cancelled function of stage %d invoked", i);
      else
        CHECK(log.s(i) == 1, "function of stage %d invoked %ld times", i, log.s(i));
    }
    if (!drop)
      CHECK(f.get() == depth + 1);
    CHECK(live_tracked() == 0);
    CHECK(q.q.empty());
  }
  NO_TRACKED_LEFT();
}
SCENARIO(C08, chain1) { chains(1, N_KINDS); }
SCENARIO(C08, chain2) { chains(2, N_KINDS); }
SCENARIO(C08, chain3) {
  chains(3, mc::thorough() ? N_KINDS : 4);
}
SCENARIO(C08, chain4_unwrap) { chains(4, 2); }

// ---------------------------------------------------------------- trees: every subset dropped in every order
SCENARIO(C08, tree) {
  init();
  {
    mc::ghost runs[4];
    Queue q;
    const int src = mc::choose(2); // promise or packaged task
    auto x = pc::make_promise<int>();
    pc::packaged_task<int()> t([r = runs[3], cap = Tracked(1)] {
      r.bump();
      return cap.get();
    });
    pc::shared_future<int> s = src ? t.get_future().share() : x.second.share();
    pc::future<int> b[3];
    const int onq = mc::choose(2);
    for (int i = 0; i < 3; i++) {
      auto fn = [r = runs[i], cap = Tracked(i), i](int v) {
        r.bump();
        return v + i;
      };
      b[i] = onq ? s.next(qexec{&q}, std::move(fn)) : s.next(std::move(fn));
    }
    // branches are dropped before completion, after completion (before the executor runs), or kept
    int when[4];
    for (int i = 0; i < 4; i++)
      when[i] = mc::choose(3);
    int order = mc::choose(2);
    auto drop = [&](int stage) {
      for (int k = 0; k < 4; k++) {
        int i = order ? 3 - k : k;
        if (when[i] != stage)
          continue;
        if (i == 3)
          s = pc::shared_future<int>();
        else
          b[i] = pc::future<int>();
      }
    };
    drop(0);
    const bool all_gone = when[0] == 0 && when[1] == 0 && when[2] == 0 && when[3] == 0;
    if (!src)
      CHECK(x.first.is_awaiten() == !all_gone);
    if (all_gone && src)
      CHECK(live_tracked() == 0);
    if (src)
      t();
    else
      x.first.set_value(1);
    if (src)
      CHECK(runs[3].peek() == !all_gone);
    drop(1);
    q.run_all();
    for (int i = 0; i < 3; i++) {
      const long want = when[i] == 0 ? 0 : when[i] == 1 ? !onq : 1;
      CHECK(runs[i].peek() == want, "branch %d invoked %ld times, want %ld", i, runs[i].peek(), want);
      if (when[i] == 2)
        CHECK(b[i].get() == 1 + i);
    }
  }
  NO_TRACKED_LEFT();
}
// copies and moves of a shared_future: only the last one counts
SCENARIO(C08, copies) {
  init();
  {
    mc::ghost run;
    pc::packaged_task<int()> t([run, cap = Tracked(1)] {
      run.bump();
      return 1;
    });
    pc::shared_future<int> s[3];
    s[0] = t.get_future().share();
    bool have[3] = {true, false, false};
    for (int k = 0; k < 4; k++) {
      const int op = mc::choose(4), i = mc::choose(3), j = (i + 1 + mc::choose(2)) % 3;
      switch (op) {
      case 0:
        s[j] = s[i];
        have[j] = have[i];
        break;
      case 1:
        s[j] = std::move(s[i]);
        have[j] = have[i];
        have[i] = false;
        break;
      case 2:
        s[i] = pc::shared_future<int>();
        have[i] = false;
        break;
      case 3: {
        pc::shared_future<int> c(s[i]);
        pc::shared_future<int> d(std::move(c));
        break;
      }
      }
      for (int a = 0; a < 3; a++)
        CHECK(s[a].valid() == have[a]);
      CHECK(live_tracked() == (have[0] || have[1] || have[2]));
    }
    const bool any = have[0] || have[1] || have[2];
    t();
    CHECK(run.peek() == any);
    for (int a = 0; a < 3; a++)
      if (have[a])
        CHECK(s[a].get() == 1);
    CHECK(live_tracked() == 0);
  }
}
// supplying a result nobody awaits
template <typename T> static void unawaited() {
  init();
  {
    const int fl = mc::choose(3), how = mc::choose(3);
    Arena *a = make_arena(0);
    mc::ghost cancelled;
    {
      auto x = fl == 0   ? pc::make_promise<T>()
               : fl == 1 ? pc::make_promise<T>(arena_alloc<char>(a))
                         : pc::make_promise<T>(pc::canceler_arg, [cancelled] { cancelled.bump(); });
      CHECK(x.first.is_awaiten());
      x.second = pc::future<T>();
      CHECK(!x.first.is_awaiten());
      CHECK(cancelled.peek() == (fl == 2));
      if (how == 0)
        set_id<T>(x.first, 1);
      else if (how == 1)
        x.first.set_exception(err(1));
      CHECK(!x.first.is_awaiten());
      CHECK(live_tracked() == 0);
    }
    CHECK(a->blocks == 0);
    CHECK(cancelled.peek() == (fl == 2));
  }
  NO_TRACKED_LEFT();
}
SCENARIO(C08, unawaited_int) { unawaited<int>(); }
SCENARIO(C08, unawaited_void) { unawaited<void>(); }
SCENARIO(C08, unawaited_tracked) { unawaited<Tracked>(); }
SCENARIO(C08, unawaited_ref) { unawaited<int &>(); }

// continuation of a combinator: its own function is cancelled
SCENARIO(C08, after_combinator) {
  init();
  {
    mc::ghost run;
    auto a = pc::make_promise<int>(), b = pc::make_promise<int>();
    const int any = mc::choose(2), when = mc::choose(3);
    pc::future<int> g;
    if (any)
      g = pc::when_any(std::move(a.second), std::move(b.second)).next([run, cap = Tracked(1)](auto) {
        run.bump();
        return 1;
      });
    else
      g = pc::when_all(std::move(a.second), std::move(b.second)).next([run, cap = Tracked(1)](auto) {
        run.bump();
        return 1;
      });
    if (when == 0) {
      g = pc::future<int>();
      CHECK(live_tracked() == 0);
    }
    a.first.set_value(1);
    if (when == 1) {
      g = pc::future<int>();
      CHECK(live_tracked() == 0);
    }
    b.first.set_value(2);
    CHECK(run.peek() == (when == 2 || (any && when == 1)));
  }
  NO_TRACKED_LEFT();
}

// ---------------------------------------------------------------- races
struct Race {
  mc::ghost begin[3], end[3], dropped;
};
static void body(const Race &r, int i, const Tracked &cap) {
  r.begin[i].add();
  CHECK(cap.get() == i);
  r.end[i].add();
  CHECK(cap.get() == i);
}
// drop of the future against the completion of the promise, chain run in place
static void race_promise(int depth, bool shared) {
  init();
  {
    Race r;
    auto x = pc::make_promise<int>();
    pc::future<int> f = std::move(x.second);
    for (int i = 0; i < depth; i++) {
      auto fn = [r, i, cap = Tracked(i)](int v) {
        body(r, i, cap);
        return v + 1;
      };
      f = shared ? f.share().next(std::move(fn)) : f.next(std::move(fn));
    }
    thr t([f = std::move(f), r]() mutable {
      f = pc::future<int>();
      r.dropped.set(1);
    });
    const bool d = r.dropped.get();
    x.first.set_value(1);
    const long n = r.begin[0].peek();
    if (d)
      CHECK(n == 0, "function invoked although the last future was gone before the completion");
    t = thr();
    for (int i = 0; i < depth; i++) {
      CHECK(r.begin[i].peek() == r.end[i].peek() && r.begin[i].peek() <= 1);
      if (i)
        CHECK(r.begin[i].peek() <= r.begin[i - 1].peek());
    }
    mc::outcome("ran %ld %ld", r.begin[0].peek(), r.begin[1].peek());
    CHECK(!x.first.is_awaiten());
  }
  NO_TRACKED_LEFT();
}
SCENARIO(C08, race_promise1, o.preempt = -1) { race_promise(1, false); }
SCENARIO(C08, race_promise2, o.preempt = -1) { race_promise(2, false); }
SCENARIO(C08, race_promise2_shared, o.preempt = 4) { race_promise(2, true); }
SCENARIO(C08, race_promise3, o.preempt = 4) { race_promise(3, false); }

// drop against the execution of a task: packaged task, async task in a queue, posted continuation
static void race_task(int way) {
  init();
  {
    Race r;
    Queue q;
    pc::packaged_task<int()> t;
    pc::future<int> f;
    pc::promise<int> up{pc::make_promise<int>().first};
    {
    auto fn = [r, cap = Tracked(0)] {
      body(r, 0, cap);
      return 1;
    };
    if (way == 0) {
      t = pc::packaged_task<int()>(std::move(fn));
      f = t.get_future();
    } else if (way == 1)
      f = pc::async(qexec{&q}, std::move(fn));
    else if (way == 2)
      f = pc::make_ready_future().next(qexec{&q}, std::move(fn));
    else if (way == 3)
      f = pc::make_ready_future().then(qexec{&q}, [fn = std::move(fn)](pc::future<void>) mutable { return fn(); });
    else if (way == 4)
      f = pc::make_ready_future().share().then(qexec{&q},
                                               [fn = std::move(fn)](pc::shared_future<void>) mutable { return fn(); });
    else if (way == 5) // interruptible
      f = pc::make_ready_future().then(qexec{&q}, [fn = std::move(fn)](pc::promise<int> p, pc::future<void>) mutable {
        if (p.is_awaiten()) {
          int v = fn();
          p.set_value(v);
        } else
          fn();
      });
    else if (way == 6) // unwrapped result
      f = pc::async(qexec{&q}, [fn = std::move(fn)]() mutable { return pc::make_ready_future(fn()); });
    }
    thr t2([f = std::move(f), r]() mutable {
      f = pc::future<int>();
      r.dropped.set(1);
    });
    const bool d = r.dropped.get();
    if (way == 0)
      t();
    else
      q.run_all();
    CHECK(r.begin[0].peek() == r.end[0].peek() && r.begin[0].peek() <= 1);
    if (d)
      CHECK(r.begin[0].peek() == 0, "function started although the last future was gone");
    t2 = thr();
    CHECK(live_tracked() == 0);
    mc::outcome("ran %ld", r.begin[0].peek());
  }
  NO_TRACKED_LEFT();
}
SCENARIO(C08, race_packaged, o.preempt = -1) { race_task(0); }
SCENARIO(C08, race_async, o.preempt = -1) { race_task(1); }
SCENARIO(C08, race_next, o.preempt = -1) { race_task(2); }
SCENARIO(C08, race_then, o.preempt = 4) { race_task(3); }
SCENARIO(C08, race_shared_then, o.preempt = 4) { race_task(4); }
SCENARIO(C08, race_interruptible, o.preempt = 4) { race_task(5); }
SCENARIO(C08, race_unwrap, o.preempt = 4) { race_task(6); }

// a queue entry is destroyed by its executor while the future is dropped
SCENARIO(C08, race_drop_drop, o.preempt = 4) {
  init();
  {
    const int way = mc::choose(3);
    auto q = std::make_unique<Queue>();
    pc::future<int> f;
    {
    auto fn = [cap = Tracked(0)] {
      mc::fail("dropped function invoked");
      return 1;
    };
    if (way == 0)
      f = pc::async(qexec{q.get()}, std::move(fn));
    else if (way == 1)
      f = pc::make_ready_future().next(qexec{q.get()}, std::move(fn));
    else
      f = pc::async(qexec{q.get()}, std::move(fn)).next([cap = Tracked(0)](int v) {
        mc::fail("next invoked");
        return v;
      });
    }
    thr t2([f = std::move(f)]() mutable { f = pc::future<int>(); });
    q.reset();
    t2 = thr();
    CHECK(live_tracked() == 0);
  }
  NO_TRACKED_LEFT();
}
// copies of a shared_future dropped by two threads against the completion
SCENARIO(C08, race_copies, o.preempt = 3) {
  init();
  {
    Race r;
    pc::packaged_task<int()> t([r, cap = Tracked(0)] {
      body(r, 0, cap);
      return 1;
    });
    pc::shared_future<int> s = t.get_future().share();
    thr a([s]() mutable {
      pc::shared_future<int> o = s;
      s = pc::shared_future<int>();
    });
    thr b([s = std::move(s)]() mutable { s = pc::shared_future<int>(); });
    t();
    a = thr();
    b = thr();
    CHECK(r.begin[0].peek() == r.end[0].peek() && r.begin[0].peek() <= 1);
    CHECK(live_tracked() == 0);
  }
}
// one branch is dropped, the other one awaited
SCENARIO(C08, race_branch, o.preempt = 3) {
  init();
  {
    Race r;
    auto x = pc::make_promise<int>();
    pc::shared_future<int> s = x.second.share();
    auto a = s.next([r, cap = Tracked(0)](int v) {
      body(r, 0, cap);
      return v;
    });
    auto b = s.next([r, cap = Tracked(1)](int v) {
      body(r, 1, cap);
      return v + 1;
    });
    s = pc::shared_future<int>();
    thr p([p = std::move(x.first)]() mutable { p.set_value(1); });
    a = pc::future<int>();
    CHECK(b.get() == 2);
    p = thr();
    CHECK(r.begin[1].peek() == 1 && r.end[1].peek() == 1);
    CHECK(r.begin[0].peek() == r.end[0].peek() && r.begin[0].peek() <= 1);
  }
  NO_TRACKED_LEFT();
}
// pool worker against the drop
static void race_pool(bool chain) {
  init();
  {
    Race r;
    pc::static_thread_pool pool(1);
    pc::future<int> f = pc::async(pool.executor(), [r, cap = Tracked(0)] {
      body(r, 0, cap);
      return 1;
    });
    if (chain)
      f = f.next(pool.executor(), [r, cap = Tracked(1)](int v) {
        body(r, 1, cap);
        return v + 1;
      });
    f = pc::future<int>();
    pool.wait();
    CHECK(live_tracked() == 0);
    for (int i = 0; i < 2; i++)
      CHECK(r.begin[i].peek() == r.end[i].peek() && r.begin[i].peek() <= 1);
    CHECK(r.begin[1].peek() <= r.begin[0].peek());
    mc::outcome("ran %ld %ld", r.begin[0].peek(), r.begin[1].peek());
  }
  NO_TRACKED_LEFT();
}
SCENARIO(C08, race_pool, o.preempt = 3) { race_pool(false); }
SCENARIO(C08, race_pool_chain, o.preempt = 2; o.preempt_max = 4) { race_pool(true); }
// outer future dropped while the inner one completes
SCENARIO(C08, race_inner, o.preempt = 4) {
  init();
  {
    Race r;
    auto in = pc::make_promise<int>();
    pc::future<int> inner = in.second.next([r, cap = Tracked(0)](int v) {
      body(r, 0, cap);
      return v + 1;
    });
    pc::future<int> outer =
        pc::make_ready_future().next([inner = std::move(inner)]() mutable { return std::move(inner); });
    outer = outer.next([r, cap = Tracked(1)](int v) {
      body(r, 1, cap);
      return v + 1;
    });
    thr t([f = std::move(outer), r]() mutable {
      f = pc::future<int>();
      r.dropped.set(1);
    });
    const bool d = r.dropped.get();
    if (d)
      CHECK(!in.first.is_awaiten() && live_tracked() == 0);
    in.first.set_value(1);
    if (d)
      CHECK(r.begin[0].peek() == 0);
    t = thr();
    CHECK(live_tracked() == 0);
    for (int i = 0; i < 2; i++)
      CHECK(r.begin[i].peek() == r.end[i].peek() && r.begin[i].peek() <= 1);
  }
  NO_TRACKED_LEFT();
}
// a started function runs to its end although the future goes away meanwhile; later stages do not run
SCENARIO(C08, drop_while_running) {
  init();
  {
    Queue q;
    mc::ghost run[2];
    const int way = mc::choose(5), stage2 = mc::choose(2);
    pc::future<int> f;
    pc::future<int> *pf = &f;
    {
    auto fn = [pf, run, cap = Tracked(7)] {
      *pf = pc::future<int>(); // as another thread could do
      CHECK(cap.get() == 7, "function destroyed while it runs");
      run[0].bump();
      return 1;
    };
    switch (way) {
    case 0:
      f = pc::async(qexec{&q}, std::move(fn));
      break;
    case 1:
      f = pc::make_ready_future().next(qexec{&q}, std::move(fn));
      break;
    case 2:
      f = pc::make_ready_future().share().next(qexec{&q}, std::move(fn));
      break;
    case 3:
      f = pc::make_ready_future().then(qexec{&q}, [fn = std::move(fn)](pc::future<void>) mutable { return fn(); });
      break;
    case 4:
      f = pc::make_ready_future().then(qexec{&q}, [fn = std::move(fn)](pc::promise<int> p, pc::future<void>) mutable {
        CHECK(p.is_awaiten());
        int v = fn();
        CHECK(!p.is_awaiten());
        p.set_value(v);
      });
      break;
    }
    }
    if (stage2)
      f = f.next([run, cap = Tracked(8)](int v) {
        run[1].bump();
        return v;
      });
    q.run_all();
    CHECK(run[0].peek() == 1 && run[1].peek() == 0);
    CHECK(live_tracked() == 0);
  }
}
