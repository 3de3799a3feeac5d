// C10: detached computations complete although their future is destroyed.
#include "common.h"

struct Log {
  mc::ghost runs[6];
};
struct Fn {
  int i;
  Log log;
  Tracked cap;
  int run(int v) {
    CHECK(cap.get() == 40 + i);
    log.runs[i].bump();
    return v + 1;
  }
};
enum { N_KINDS = 7 };
static pc::future<int> attach_stage(pc::future<int> f, int kind, int e, int i, Log log, Queue *q) {
  Fn fn{i, log, Tracked(40 + i)};
  switch (kind) {
  case 0: {
    auto c = [fn = std::move(fn)](pc::future<int> x) mutable { return fn.run(x.get()); };
    return e ? f.then(qexec{q}, std::move(c)) : f.then(std::move(c));
  }
  case 1: {
    auto c = [fn = std::move(fn)](int x) mutable { return fn.run(x); };
    return e ? f.next(qexec{q}, std::move(c)) : f.next(std::move(c));
  }
  case 2: {
    auto c = [fn = std::move(fn)](int x) mutable { return fn.run(x); };
    pc::shared_future<int> s = f.share();
    return e ? s.next(qexec{q}, std::move(c)) : s.next(std::move(c));
  }
  case 3: { // unwraps posted work
    auto c = [fn = std::move(fn), q](pc::future<int> x) mutable {
      return pc::async(qexec{q}, [fn = std::move(fn), v = x.get()]() mutable { return fn.run(v); });
    };
    return e ? f.then(qexec{q}, std::move(c)) : f.then(std::move(c));
  }
  case 4: {
    auto c = [fn = std::move(fn)](pc::promise<int> p, pc::future<int> x) mutable {
      CHECK(p.is_awaiten());
      try {
        p.set_value(fn.run(x.get()));
      } catch (...) {
        p.set_exception(std::current_exception());
      }
    };
    return e ? f.then(qexec{q}, std::move(c)) : f.then(std::move(c));
  }
  case 5: {
    auto c = [fn = std::move(fn)](pc::shared_future<int> x) mutable { return fn.run(x.get()); };
    pc::shared_future<int> s = f.share();
    return e ? s.then(qexec{q}, std::move(c)) : s.then(std::move(c));
  }
  default: {
    auto c = [fn = std::move(fn)](int x) mutable { return pc::make_ready_future(fn.run(x)); };
    return e ? f.next(qexec{q}, std::move(c)) : f.next(std::move(c));
  }
  }
}
// chain with detach() at position pos (0: at the source); stages behind it are cancellable
static void chain(int depth, int kinds) {
  init();
  {
    Queue q;
    Log log;
    const int src = mc::choose(4), pos = mc::choose(depth + 1), shared = mc::choose(2);
    pc::promise<int> p{pc::make_promise<int>().first};
    pc::packaged_task<int()> t;
    Arena *a = make_arena(0);
    pc::future<int> f;
    if (src == 0 || src == 3) {
      auto x = src == 0 ? pc::make_promise<int>() : pc::make_promise<int>(arena_alloc<char>(a));
      p = std::move(x.first);
      f = std::move(x.second);
    } else if (src == 1) {
      t = pc::packaged_task<int()>([fn = Fn{0, log, Tracked(40)}]() mutable { return fn.run(0); });
      f = t.get_future();
    } else
      f = pc::async(qexec{&q}, [fn = Fn{0, log, Tracked(40)}]() mutable { return fn.run(0); });
    pc::shared_future<int> s;
    for (int i = 0; i <= depth; i++) {
      if (i)
        f = attach_stage(std::move(f), mc::choose(kinds), mc::choose(2), i, log, &q);
      if (i == pos) {
        if (shared) {
          pc::shared_future<int> sh = f.share();
          pc::shared_future<int> copy = mc::choose(2) ? sh : pc::shared_future<int>();
          pc::shared_future<int> d = sh.detach();
          CHECK(!copy.valid() || !copy.is_ready() || d.is_ready());
          CHECK(!sh.valid() && d.valid());
          f = i == depth ? pc::future<int>() : pc::future<int>();
          s = std::move(d);
          if (i < depth) { // go on from the shared future
            f = s.next([](int v) { return v; });
            s = pc::shared_future<int>();
          }
        } else {
          pc::future<int> d = f.detach();
          CHECK(!f.valid() && d.valid());
          f = std::move(d);
        }
      }
    }
    const int drop = mc::choose(4); // 0: before the source fires, 1: after, 2: after one queue step, 3: kept
    const int broken = (src == 0 || src == 3) ? mc::choose(2) : 0;
    auto gone = [&] {
      f = pc::future<int>();
      s = pc::shared_future<int>();
    };
    long before[6] = {0};
    auto snap = [&] {
      for (int i = 0; i <= depth; i++)
        before[i] = log.runs[i].peek();
    };
    if (drop == 0) {
      gone();
      snap();
    }
    if (src == 0 || src == 3) {
      CHECK(p.is_awaiten(), "detached computation is not awaited");
      if (broken) {
        pc::promise<int> away(std::move(p));
      } else {
        log.runs[0].bump();
        p.set_value(1);
      }
    } else if (src == 1)
      t();
    if (drop == 1) {
      snap();
      gone();
    }
    bool more = q.run_one();
    if (drop == 2) {
      if (!more)
        mc::discard();
      snap();
      gone();
    }
    q.run_all();
    for (int i = 0; i <= depth; i++) {
      const long n = log.runs[i].peek();
      CHECK(n <= 1, "function %d ran %ld times", i, n);
      if (broken)
        continue;
      if (i <= pos || drop == 3)
        CHECK(n == 1, "detached function %d did not run", i);
      else if (drop < 3)
        CHECK(n == before[i], "cancelled stage %d behind detach() ran", i);
    }
    if (drop == 3) {
      int r = f.valid() ? outcome_of([&] { return f.get(); }) : outcome_of([&] { return s.get(); });
      CHECK(r == (broken ? BROKEN : depth + 1), "(%d)", r);
    }
    gone();
    CHECK(live_tracked() == 0, "%ld objects kept after completion", live_tracked());
    if (!broken && (src == 0 || src == 3))
      CHECK(!p.is_awaiten());
    p = pc::make_promise<int>().first;
    CHECK(a->blocks == 0);
  }
  NO_TRACKED_LEFT();
}
SCENARIO(C10, chain0) { chain(0, 1); }
SCENARIO(C10, chain1) { chain(1, N_KINDS); }
SCENARIO(C10, chain2) { chain(2, N_KINDS); }
SCENARIO(C10, chain3) { chain(3, mc::thorough() ? N_KINDS : 3); }

// the producer goes away, or its function throws: everything is released
template <typename T> static void ends() {
  init();
  {
    const int how = mc::choose(3), shared = mc::choose(2), twice = mc::choose(2), keep = mc::choose(2), ready = mc::choose(2);
    Arena *a = make_arena(0);
    mc::ghost cancelled, n;
    {
      const int fl = mc::choose(3);
      auto x = fl == 0   ? pc::make_promise<T>()
               : fl == 1 ? pc::make_promise<T>(arena_alloc<char>(a))
                         : pc::make_promise<T>(pc::canceler_arg, [cancelled] { cancelled.bump(); });
      auto fin = [&] {
        if (how == 0)
          set_id<T>(x.first, 1);
        else if (how == 1)
          x.first.set_exception(err(1));
        else {
          pc::promise<T> gone(std::move(x.first));
        }
      };
      const int want = how == 0 ? vid<T>(1) : how == 1 ? EXC - 1 : BROKEN;
      if (ready)
        fin();
      pc::future<T> f = std::move(x.second);
      f.notify([n] { n.bump(); });
      pc::shared_future<T> s;
      if (shared) {
        s = f.share();
        pc::shared_future<T> copy = mc::choose(2) ? s : pc::shared_future<T>();
        s = s.detach();
        if (twice)
          s = s.detach();
        CHECK(s.is_ready() == (bool)ready);
        if (!keep)
          s = pc::shared_future<T>();
      } else {
        f = f.detach();
        if (twice)
          f = f.detach();
        CHECK(f.is_ready() == (bool)ready);
        if (!keep)
          f = pc::future<T>();
      }
      if (!ready) {
        CHECK(x.first.is_awaiten());
        CHECK(n.peek() == 0);
        fin();
      }
      CHECK(n.peek() == 1, "notification ran %ld times", n.peek());
      CHECK(cancelled.peek() == 0, "detached computation cancelled");
      if (how < 2 && !keep)
        CHECK(!x.first.is_awaiten(), "kept after completion");
      if (keep) {
        if (shared)
          CHECK(get_outcome(s) == want);
        else
          CHECK(get_outcome(f) == want);
      } else
        CHECK(live_tracked() == 0);
    }
    CHECK(a->blocks == 0);
    CHECK(cancelled.peek() == 0);
  }
  NO_TRACKED_LEFT();
}
SCENARIO(C10, ends_int) { ends<int>(); }
SCENARIO(C10, ends_void) { ends<void>(); }
SCENARIO(C10, ends_ref) { ends<int &>(); }
SCENARIO(C10, ends_tracked) { ends<Tracked>(); }

// ---------------------------------------------------------------- races
// detach and drop against the completion
template <typename T> static void race_complete(bool shared) {
  init();
  {
    const int fl = mc::choose(2), how = mc::choose(2);
    Arena *a = make_arena(0);
    mc::ghost cancelled, n, detached;
    {
      auto x = fl == 0 ? pc::make_promise<T>(arena_alloc<char>(a))
                       : pc::make_promise<T>(pc::canceler_arg, [cancelled] { cancelled.bump(); });
      x.second.notify([n] { n.bump(); });
      thr t([f = std::move(x.second), shared, detached]() mutable {
        if (shared) {
          pc::shared_future<T> s = f.share();
          s = s.detach();
        } else
          f = f.detach();
        detached.set(1);
        f = pc::future<T>();
      });
      const bool d = detached.get();
      if (d)
        CHECK(x.first.is_awaiten(), "detached but not awaited");
      if (how == 0)
        set_id<T>(x.first, 1);
      else {
        pc::promise<T> gone(std::move(x.first));
      }
      CHECK(n.peek() == 1);
      t = thr();
      CHECK(cancelled.peek() == 0);
      if (how == 0)
        CHECK(!x.first.is_awaiten());
    }
    CHECK(a->blocks == 0);
  }
  NO_TRACKED_LEFT();
}
SCENARIO(C10, race_int, o.preempt = -1) { race_complete<int>(false); }
SCENARIO(C10, race_void_shared, o.preempt = -1) { race_complete<void>(true); }
SCENARIO(C10, race_tracked, o.preempt = 4) { race_complete<Tracked>(false); }

// chain of two in-place continuations detached and dropped while the promise completes
SCENARIO(C10, race_chain, o.preempt = 4) {
  init();
  {
    mc::ghost n[3];
    auto x = pc::make_promise<int>();
    pc::future<int> f = x.second
                            .next([r = n[0], cap = Tracked(1)](int v) {
                              r.bump();
                              return v + cap.get();
                            })
                            .next([r = n[1], cap = Tracked(1)](int v) {
                              r.bump();
                              return v + cap.get();
                            });
    thr t([f = std::move(f), n]() mutable {
      pc::future<int> g = f.detach().next([r = n[2], cap = Tracked(1)](int v) {
        r.bump();
        return v;
      });
    });
    x.first.set_value(1);
    t = thr();
    CHECK(n[0].peek() == 1 && n[1].peek() == 1, "detached functions ran %ld and %ld times", n[0].peek(), n[1].peek());
    CHECK(n[2].peek() <= 1);
    CHECK(live_tracked() == 0);
    mc::outcome("third %ld", n[2].peek());
  }
}
// tasks run by another thread
static void race_task(int way) {
  init();
  {
    mc::ghost n[2];
    Queue q;
    pc::packaged_task<int()> t;
    pc::future<int> f;
    {
      auto fn = [r = n[0], cap = Tracked(1)] {
        r.add();
        return cap.get();
      };
      if (way == 0) {
        t = pc::packaged_task<int()>(std::move(fn));
        f = t.get_future();
      } else if (way == 1)
        f = pc::async(qexec{&q}, std::move(fn));
      else
        f = pc::make_ready_future().next(qexec{&q}, std::move(fn));
    }
    f = f.detach();
    thr t2([f = std::move(f)]() mutable { f = pc::future<int>(); });
    if (way == 0)
      t();
    else
      q.run_all();
    CHECK(n[0].peek() == 1);
    t2 = thr();
    CHECK(live_tracked() == 0);
  }
}
SCENARIO(C10, race_packaged, o.preempt = -1) { race_task(0); }
SCENARIO(C10, race_async, o.preempt = -1) { race_task(1); }
SCENARIO(C10, race_next, o.preempt = -1) { race_task(2); }

// the README example on a pool: everything up to detach() runs
SCENARIO(C10, pool, o.preempt = 2; o.preempt_max = 3) {
  init();
  {
    mc::ghost n[3];
    {
      pc::static_thread_pool pool(1);
      auto f = pc::async(pool.executor(),
                         [r = n[0], cap = Tracked(1)] {
                           r.bump();
                           return cap.get();
                         })
                   .next(
                       [r = n[1], cap = Tracked(1)](int v) {
                         r.bump();
                         return v;
                       })
                   .detach()
                   .next(pool.executor(), [r = n[2], cap = Tracked(1)](int v) {
                     r.bump();
                     return v;
                   });
      f = pc::future<int>();
      pool.wait();
    }
    CHECK(n[0].peek() == 1 && n[1].peek() == 1);
    CHECK(n[2].peek() <= 1);
    CHECK(live_tracked() == 0);
  }
}
// detached outer future, inner future completed by another thread
SCENARIO(C10, race_unwrap, o.preempt = 4) {
  init();
  {
    mc::ghost n[2], cancelled;
    auto in = pc::make_promise<int>(pc::canceler_arg, [cancelled] { cancelled.bump(); });
    pc::future<int> inner = in.second.next([r = n[0], cap = Tracked(1)](int v) {
      r.bump();
      return v;
    });
    pc::packaged_task<pc::future<int>()> t([inner = std::move(inner), r = n[1], cap = Tracked(1)]() mutable {
      r.bump();
      return std::move(inner);
    });
    t.get_future().detach();
    thr a([p = std::move(in.first)]() mutable {
      CHECK(p.is_awaiten());
      p.set_value(1);
    });
    t();
    a = thr();
    CHECK(n[0].peek() == 1 && n[1].peek() == 1 && cancelled.peek() == 0);
    CHECK(live_tracked() == 0);
  }
}
