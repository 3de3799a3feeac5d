// C18: stored objects are released exactly once, as soon as nobody can use them, and never used afterwards.
// The engine reports every use of freed memory, double free, data race and leak; Tracked reports use and
// destruction of dead objects. The models below say how many objects may be alive after each step.
#include "common.h"

// exception object with lifetime accounting
// (its payload lies inside the exception object: reference counts of exceptions are kept by the C++ runtime,
// which the engine does not see)
struct ErrBody {
  unsigned magic = 0xA11FE;
  int v;
  explicit ErrBody(int x) : v(x) { ctr().v[C_LIVE]++; }
  ErrBody(const ErrBody &o) : v(o.get()) { ctr().v[C_LIVE]++; }
  ErrBody &operator=(const ErrBody &) = delete;
  ~ErrBody() {
    if (magic != 0xA11FE)
      mc::fail("destruction of an exception that is not alive");
    *const_cast<volatile unsigned *>(&magic) = 0xDEAD;
    ctr().v[C_LIVE]--;
  }
  int get() const {
    if (magic != 0xA11FE)
      mc::fail("use of an exception that is not alive");
    return v;
  }
};
struct tracked_error {
  ErrBody t;
};
static std::exception_ptr terr(int i) { return std::make_exception_ptr(tracked_error{ErrBody(i)}); }
// value or exception id of a future of Tracked
template <typename Fut> static int take(Fut &f) {
  try {
    return f.get().get();
  } catch (const tracked_error &e) {
    return EXC - e.t.get();
  } catch (...) {
    return classify(std::current_exception());
  }
}
struct copied { // copied when moved
  Tracked t;
  explicit copied(int i) : t(i) {}
  copied(const copied &o) : t(o.t) {}
};

// ---------------------------------------------------------------- operation sequences against an ownership model
struct Own {
  Queue q;
  std::unique_ptr<pc::promise<Tracked>> p;
  pc::future<Tracked> f;
  pc::shared_future<Tracked> s[2];
  pc::future<Tracked> g[2]; // results of continuations
  // model
  enum { PENDING, VALUE, ERROR, BROKEN_ } st = PENDING;
  bool dead = false; // source state gone
  struct Cnt {
    bool attached = false, queued_exec = false, posted = false, done = false, copy_cap = false, unique = false, throws = false;
    int result = 0; // 0 none, 1 value, 2 own exception, 3 the parent's exception
  } c[2];
  int nnotify = 0; // pending notifications, each with a captured object
  bool detached = false;

  explicit Own(int how) {
    Arena *a = make_arena(0);
    auto x = how == 0 ? pc::make_promise<Tracked>()
             : how == 1 ? pc::make_promise<Tracked>(arena_alloc<char>(a))
                        : pc::make_promise<Tracked>(pc::canceler_arg, [] {});
    p.reset(new pc::promise<Tracked>(std::move(x.first)));
    f = std::move(x.second);
  }
  // does anything keep the source state?
  bool src_held() const {
    if (f.valid() || s[0].valid() || s[1].valid() || detached)
      return true;
    for (auto &k : c)
      if (k.attached && !k.done)
        return true;
    return false;
  }
  long expected() const {
    long n = 0;
    bool err_held = false;
    if (src_held() && st == VALUE)
      n++;
    if (src_held() && st == ERROR)
      err_held = true;
    for (int i = 0; i < 2; i++) {
      const Cnt &k = c[i];
      if (k.attached && !k.done)
        n++; // captured object
      if (k.done && g[i].valid()) {
        if (k.result == 1 || k.result == 2)
          n++;
        if (k.result == 3)
          err_held = err_held || st == ERROR;
      }
    }
    if (err_held)
      n++;
    if (src_held() || !dead)
      n += nnotify;
    return n;
  }
  void settle() {
    // cancelled when the result future is gone
    for (int i = 0; i < 2; i++)
      if (c[i].attached && !c[i].done && !g[i].valid())
        c[i] = Cnt();
    if (!src_held() && !dead) {
      dead = true;
      nnotify = 0;
    }
  }
  void check(const char *after) {
    settle();
    const long e = expected();
    CHECK(live_tracked() == e, "after %s: %ld objects alive, expected %ld", after, live_tracked(), e);
  }
  void exec_cnt(int i) {
    Cnt &k = c[i];
    k.done = true;
    k.result = st == VALUE ? (k.throws ? 2 : 1) : 3;
  }
  void on_supply() {
    nnotify = 0;
    detached = false;
    for (int i = 0; i < 2; i++)
      if (c[i].attached && !c[i].done) {
        if (c[i].queued_exec)
          c[i].posted = true;
        else
          exec_cnt(i);
      }
  }
  void attach(int i, bool queue, bool copy_cap, bool throws, bool uniq) {
    Cnt &k = c[i];
    auto body = [throws](int v) {
      if (throws)
        throw tracked_error{ErrBody(90)};
      return Tracked(v + 1);
    };
    if (uniq) {
      if (copy_cap) {
        auto fn = [cap = copied(70), body](Tracked v) {
          CHECK(cap.t.get() == 70);
          return body(v.get());
        };
        g[i] = queue ? f.next(qexec{&q}, std::move(fn)) : f.next(std::move(fn));
      } else {
        auto fn = [cap = Tracked(70), body](Tracked v) {
          CHECK(cap.get() == 70);
          return body(v.get());
        };
        g[i] = queue ? f.next(qexec{&q}, std::move(fn)) : f.next(std::move(fn));
      }
    } else {
      if (copy_cap) {
        auto fn = [cap = copied(70), body](pc::shared_future<Tracked> v) {
          CHECK(cap.t.get() == 70);
          return body(v.get().get());
        };
        g[i] = queue ? s[0].then(qexec{&q}, std::move(fn)) : s[0].then(std::move(fn));
      } else {
        auto fn = [cap = Tracked(70), body](const Tracked &v) {
          CHECK(cap.get() == 70);
          return body(v.get());
        };
        g[i] = queue ? s[0].next(qexec{&q}, std::move(fn)) : s[0].next(std::move(fn));
      }
    }
    k = Cnt();
    k.attached = true;
    k.queued_exec = queue;
    k.unique = uniq;
    k.throws = throws;
    if (st != PENDING) {
      if (queue)
        k.posted = true;
      else
        exec_cnt(i);
    }
  }
  // one operation; false: not applicable
  bool op(int o) {
    switch (o) {
    case 0:
      if (!p || st != PENDING)
        return false;
      p->set_value(Tracked(1));
      if (!dead)
        st = VALUE, on_supply();
      break;
    case 1:
      if (!p || st != PENDING)
        return false;
      p->set_exception(terr(2));
      if (!dead)
        st = ERROR, on_supply();
      break;
    case 2:
      if (!p)
        return false;
      p.reset();
      if (!dead && st == PENDING)
        st = BROKEN_, on_supply();
      break;
    case 3:
      if (!f.valid())
        return false;
      f = pc::future<Tracked>();
      break;
    case 4:
      if (!f.valid())
        return false;
      s[0] = f.share();
      break;
    case 5:
      if (!s[0].valid() || s[1].valid())
        return false;
      s[1] = s[0];
      break;
    case 6:
      if (!s[0].valid())
        return false;
      s[0] = pc::shared_future<Tracked>();
      break;
    case 7:
      if (!s[1].valid())
        return false;
      s[1] = pc::shared_future<Tracked>();
      break;
    case 8: { // attach to the unique future
      if (!f.valid() || g[0].valid())
        return false;
      const int m = mc::choose(4);
      attach(0, m & 1, m & 2, false, true);
      break;
    }
    case 9:
    case 10: { // attach to the shared future
      if (!s[0].valid() || g[o - 9].valid() || (o == 10 && !g[0].valid()))
        return false;
      const int m = mc::choose(4);
      attach(o - 9, m & 1, m & 2, o == 10, false);
      break;
    }
    case 11:
      if (!g[0].valid())
        return false;
      g[0] = pc::future<Tracked>();
      break;
    case 12:
      if (!g[1].valid())
        return false;
      g[1] = pc::future<Tracked>();
      break;
    case 13: // run the queue
      if (q.q.empty())
        return false;
      q.run_all();
      for (int i = 0; i < 2; i++)
        if (c[i].posted && !c[i].done)
          exec_cnt(i);
      break;
    case 14: { // drop the queued tasks: broken promise
      if (q.q.empty())
        return false;
      q.q.clear();
      for (int i = 0; i < 2; i++)
        if (c[i].posted && !c[i].done)
          c[i].done = true, c[i].result = 0;
      break;
    }
    case 15:
      if (!f.valid() && !s[0].valid())
        return false;
      if (st == PENDING && nnotify < 1) {
        auto box = std::make_unique<Tracked>(60);
        auto fn = [b = std::move(box)] { CHECK(b->get() == 60); };
        if (f.valid())
          f.notify(std::move(fn));
        else
          s[0].notify(std::move(fn));
        nnotify++;
      } else
        return false;
      break;
    case 16:
      if (!f.valid() || st == PENDING)
        return false;
      take(f);
      break;
    case 17:
      if (detached || st != PENDING)
        return false;
      if (f.valid())
        f = f.detach();
      else if (s[0].valid())
        s[0] = s[0].detach();
      else
        return false;
      detached = true;
      break;
    }
    return true;
  }
};
static void sequence(int len) {
  init();
  {
    Own y(mc::choose(3));
    y.check("start");
    static const char *names[] = {"set_value", "set_exception", "drop promise", "drop future", "share", "copy", "drop shared", "drop copy", "attach", "attach shared",
                                  "attach shared 2", "drop result", "drop result 2", "run queue", "drop queue", "notify", "get", "detach"};
    for (int k = 0; k < len; k++) {
      int o = mc::choose(19);
      if (o == 18)
        break;
      if (!y.op(o))
        mc::discard();
      y.check(names[o]);
    }
  }
  NO_TRACKED_LEFT();
}
SCENARIO(C18, sequences) { sequence(mc::thorough() ? 7 : 6); }

// ---------------------------------------------------------------- packaged tasks
static void task_sequence(int len) {
  init();
  {
    pc::packaged_task<Tracked(int)> t, u;
    pc::future<Tracked> f;
    // model
    bool fn = false, val = false, in_t = false, in_u = false;
    auto check = [&] {
      long e = (fn ? 1 : 0) + (val && f.valid() ? 1 : 0);
      CHECK(live_tracked() == e, "%ld objects alive, expected %ld", live_tracked(), e);
    };
    bool retrieved = false;
    for (int k = 0; k < len; k++) {
      switch (mc::choose(8)) {
      case 0:
        if (in_t || in_u || f.valid() || retrieved)
          mc::discard();
        if (mc::choose(2))
          t = pc::packaged_task<Tracked(int)>([c = Tracked(5)](int v) { return Tracked(v + c.get()); });
        else
          t = pc::packaged_task<Tracked(int)>([c = copied(5)](int v) -> Tracked {
            if (c.t.get() == 5)
              throw tracked_error{ErrBody(v)};
            return Tracked(1);
          });
        in_t = fn = true;
        break;
      case 1:
        if (!in_t || retrieved)
          mc::discard();
        f = t.get_future();
        retrieved = true;
        break;
      case 2: {
        auto &x = in_t ? t : u;
        if (!(in_t || in_u) || !fn)
          mc::discard();
        x(1);
        fn = false;
        val = true;
        if (!retrieved)
          mc::discard(); // result kept by the task: get_future may follow
        break;
      }
      case 3:
        if (!in_t)
          mc::discard();
        u = std::move(t);
        in_t = false;
        in_u = true;
        break;
      case 4:
        if (!in_t && !in_u)
          mc::discard();
        (in_t ? t : u) = pc::packaged_task<Tracked(int)>();
        in_t = in_u = fn = false;
        break;
      case 5:
        if (!f.valid())
          mc::discard();
        f = pc::future<Tracked>();
        fn = false;
        break;
      case 6:
        if (!f.valid() || !f.is_ready())
          mc::discard();
        take(f);
        break;
      case 7:
        if (!in_t)
          mc::discard();
        t.swap(u);
        std::swap(in_t, in_u);
        break;
      }
      check();
    }
  }
  NO_TRACKED_LEFT();
}
SCENARIO(C18, tasks) { task_sequence(mc::thorough() ? 7 : 6); }

// ---------------------------------------------------------------- race matrix
// What a consumer thread does with its handle.
enum { U_DROP, U_GET, U_NEXT_DROP, U_THEN_GET, U_NOTIFY, U_DETACH, U_SHARE, U_ALL, U_ANY, U_TIMED, U_ITHEN, U_UNWRAP, U_N };
template <typename Fut> static void consume(Fut f, int what, bool shared_handle) {
  switch (what) {
  case U_DROP:
    break;
  case U_GET: {
    int r = take(f);
    CHECK(r == 1 || r == EXC - 2 || r == BROKEN, "(%d)", r);
    break;
  }
  case U_NEXT_DROP: {
    auto g = f.next([c = Tracked(3)](const Tracked &v) { return Tracked(v.get() + c.get()); });
    break;
  }
  case U_THEN_GET: {
    auto g = f.then([c = Tracked(3)](Fut v) { return take(v) + c.get(); });
    f = Fut();
    int r = g.get();
    CHECK(r == 4 || r == EXC + 1 || r == BROKEN + 3, "(%d)", r);
    break;
  }
  case U_NOTIFY:
    f.notify([b = std::make_unique<Tracked>(4)] { CHECK(b->get() == 4); });
    break;
  case U_DETACH:
    f.detach();
    break;
  case U_SHARE: {
    pc::shared_future<Tracked> a(std::move(f)), b(a);
    a = pc::shared_future<Tracked>();
    b = pc::shared_future<Tracked>();
    break;
  }
  case U_ALL: {
    auto g = pc::when_all(std::move(f), pc::make_ready_future(Tracked(5)));
    break;
  }
  case U_ANY: {
    auto g = pc::when_any(pc::make_ready_future(Tracked(5)), std::move(f));
    auto r = g.get();
    CHECK(r.index < 2);
    break;
  }
  case U_TIMED: {
    pc::timed_waiter w(f);
    f = Fut();
    break;
  }
  case U_ITHEN: {
    auto g = f.then([c = Tracked(3)](pc::promise<Tracked> p, Fut v) {
      if (p.is_awaiten())
        p.set_value(Tracked(c.get()));
    });
    break;
  }
  case U_UNWRAP: {
    auto g = f.then([](Fut v) { return v; });
    f = Fut();
    break;
  }
  }
  (void)shared_handle;
}
static void supply(pc::promise<Tracked> p, int how) {
  if (how == 0)
    p.set_value(Tracked(1));
  else if (how == 1)
    p.set_exception(terr(2));
}
static std::pair<pc::promise<Tracked>, pc::future<Tracked>> source(int how, Arena *a) {
  return how == 0 ? pc::make_promise<Tracked>() : how == 1 ? pc::make_promise<Tracked>(arena_alloc<char>(a)) : pc::make_promise<Tracked>(pc::canceler_arg, [c = Tracked(9)] { CHECK(c.get() == 9); });
}
// one producer, one consumer of the unique future
static void race2(int from, int to) {
  init();
  Arena *a = make_arena(0);
  {
    const int how = mc::choose(3), src = mc::choose(3), what = from + mc::choose(to - from);
    auto x = source(src, a);
    {
      thr t([p = std::move(x.first), how]() mutable { supply(std::move(p), how); });
      consume(std::move(x.second), what, false);
    }
    CHECK(live_tracked() == 0, "%ld objects alive after both threads (action %d)", live_tracked(), what);
    CHECK(a->blocks == 0);
  }
}
SCENARIO(C18, race2_a, o.preempt = 4; o.preempt_max = -1) { race2(0, 4); }
SCENARIO(C18, race2_b, o.preempt = -1) { race2(4, 8); }
SCENARIO(C18, race2_c, o.preempt = 4; o.preempt_max = -1) { race2(8, U_N); }

// one producer, two consumers of a shared result
static void race3(int lo, int hi) {
  init();
  Arena *a = make_arena(0);
  {
    const int how = mc::choose(3), src = mc::choose(2), w1 = lo + mc::choose(hi - lo), w2 = mc::choose(w1 + 1);
    auto x = source(src, a);
    {
      pc::shared_future<Tracked> s = x.second.share();
      thr t([p = std::move(x.first), how]() mutable { supply(std::move(p), how); });
      thr u([s, w1]() mutable { consume(std::move(s), w1, true); });
      consume(std::move(s), w2, true);
    }
    CHECK(live_tracked() == 0, "%ld objects alive after all threads (actions %d %d)", live_tracked(), w1, w2);
    CHECK(a->blocks == 0);
  }
}
SCENARIO(C18, race3_a, o.preempt = 2; o.preempt_max = 4) { race3(0, 3); }
SCENARIO(C18, race3_b, o.preempt = 2; o.preempt_max = 4) { race3(3, 5); }
SCENARIO(C18, race3_c, o.preempt = 2; o.preempt_max = 4) { race3(5, 7); }
SCENARIO(C18, race3_d, o.preempt = 2; o.preempt_max = 3) { race3(7, 9); }
SCENARIO(C18, race3_e, o.preempt = 2; o.preempt_max = 3) { race3(9, U_N); }

// ---------------------------------------------------------------- last owners of a task
static void race_task(int way) {
  init();
  {
    const int what = mc::choose(4), end = mc::choose(2); // end: run or drop the task
    MtQueue q;
    pc::packaged_task<Tracked()> t;
    pc::future<Tracked> f;
    {
      auto fn = [c = Tracked(1)] { return Tracked(c.get()); };
      if (way == 0) {
        t = pc::packaged_task<Tracked()>(std::move(fn));
        f = t.get_future();
      } else if (way == 1)
        f = pc::async(mtexec{&q}, std::move(fn));
      else
        f = pc::make_ready_future(Tracked(2)).then(mtexec{&q}, [c = Tracked(1)](pc::future<Tracked> v) { return Tracked(v.get().get() - 1); });
    }
    {
      thr th([f = std::move(f), what]() mutable { consume(std::move(f), what == 3 ? U_NOTIFY : what, false); });
      if (way == 0) {
        pc::packaged_task<Tracked()> mine(std::move(t));
        if (end == 0)
          mine();
      } else if (end == 0)
        q.run_all();
      else {
        std::deque<pc::unique_function<void()>> gone;
        {
          std::lock_guard<std::mutex> l(q.m);
          gone.swap(q.q);
        }
      }
    }
    CHECK(live_tracked() == 0, "%ld objects alive", live_tracked());
  }
}
SCENARIO(C18, race_packaged, o.preempt = -1) { race_task(0); }
SCENARIO(C18, race_async, o.preempt = -1) { race_task(1); }
SCENARIO(C18, race_posted, o.preempt = -1) { race_task(2); }

// ---------------------------------------------------------------- combinators
template <bool ALL> static void race_comb() {
  init();
  {
    const int h1 = mc::choose(3), what = mc::choose(4);
    auto x = pc::make_promise<Tracked>(), y = pc::make_promise<Tracked>();
    {
      auto run = [&](auto g) {
        thr t([p = std::move(x.first), h1]() mutable { supply(std::move(p), h1); });
        thr u([p = std::move(y.first)]() mutable { supply(std::move(p), 0); });
        switch (what) {
        case 0:
          break;
        case 1:
          g.get();
          break;
        case 2: {
          auto h = g.then([c = Tracked(1)](decltype(g) r) { return c.get(); });
          break;
        }
        case 3: {
          auto h = g.next([c = Tracked(1)](auto r) { return c.get(); });
          h.get();
          break;
        }
        }
      };
      if constexpr (ALL)
        run(pc::when_all(std::move(x.second), std::move(y.second)));
      else
        run(pc::when_any(std::move(x.second), y.second.share()));
    }
    CHECK(live_tracked() == 0, "%ld objects alive", live_tracked());
  }
}
SCENARIO(C18, race_when_all, o.preempt = 3; o.preempt_max = 5) { race_comb<true>(); }
SCENARIO(C18, race_when_any, o.preempt = 3; o.preempt_max = 5) { race_comb<false>(); }

// future of a future: outer dropped or read while inner and outer complete
static void race_inner(bool shared_inner) {
  init();
  {
    const int what = mc::choose(4), how = mc::choose(3);
    auto in = pc::make_promise<Tracked>();
    {
      pc::packaged_task<pc::future<Tracked>()> t;
      pc::packaged_task<pc::shared_future<Tracked>()> ts;
      pc::future<Tracked> f;
      pc::shared_future<Tracked> fs;
      if (shared_inner) {
        ts = pc::packaged_task<pc::shared_future<Tracked>()>([i = in.second.share(), c = Tracked(7)]() mutable { return i; });
        fs = ts.get_future();
      } else {
        t = pc::packaged_task<pc::future<Tracked>()>([i = std::move(in.second), c = Tracked(7)]() mutable { return std::move(i); });
        f = t.get_future();
      }
      thr a([p = std::move(in.first), how]() mutable { supply(std::move(p), how); });
      thr b([f = std::move(f), fs = std::move(fs), what, shared_inner]() mutable {
        if (shared_inner)
          consume(std::move(fs), what, true);
        else
          consume(std::move(f), what, false);
      });
      if (shared_inner)
        ts();
      else
        t();
    }
    CHECK(live_tracked() == 0, "%ld objects alive", live_tracked());
  }
}
SCENARIO(C18, race_unwrap, o.preempt = 3; o.preempt_max = 5) { race_inner(false); }
SCENARIO(C18, race_unwrap_shared, o.preempt = 3; o.preempt_max = 5) { race_inner(true); }

// promptness across threads: once both sides are through, only what the kept handle needs is alive
SCENARIO(C18, prompt, o.preempt = -1) {
  init();
  {
    const int keep = mc::choose(4), how = mc::choose(2);
    auto x = pc::make_promise<Tracked>();
    pc::promise<Tracked> p{std::move(x.first)};
    pc::shared_future<Tracked> s = x.second.share();
    pc::future<Tracked> g;
    {
      auto fn = [c = copied(1)](const Tracked &v) { return Tracked(v.get()); };
      g = s.next(std::move(fn));
    }
    {
      thr t([&p, how] {
        if (how == 0)
          p.set_value(Tracked(1));
        else
          p.set_exception(terr(2));
      });
      if (keep != 0)
        s = pc::shared_future<Tracked>();
      if (keep == 2)
        g = pc::future<Tracked>();
    }
    // keep 0: source and continuation result; 1: continuation result; 2: nothing; 3: result taken
    if (keep == 3)
      take(g);
    const long e = keep == 0 ? (how == 0 ? 2 : 1) : keep == 1 ? 1 : 0;
    CHECK(live_tracked() == e, "%ld objects alive, expected %ld", live_tracked(), e);
  }
  NO_TRACKED_LEFT();
}
// pool: results and captured objects of tasks are gone when the pool and the futures are
SCENARIO(C18, pool, o.preempt = 2; o.preempt_max = 3) {
  init();
  {
    const int what = mc::choose(3);
    pc::static_thread_pool pool(2);
    auto f = pc::async(pool.executor(), [c = Tracked(1)] { return Tracked(c.get()); });
    auto g = f.next(pool.executor(), [c = Tracked(1)](Tracked v) { return Tracked(v.get() + c.get()); });
    if (what == 0)
      CHECK(g.get().get() == 2);
    else if (what == 1)
      g = pc::future<Tracked>();
    else {
      pool.stop();
    }
    pool.wait();
    if (what < 2)
      CHECK(live_tracked() == 0, "%ld objects alive", live_tracked());
  }
  NO_TRACKED_LEFT();
}
// an inner future keeps nothing alive once the outer one is gone, and is itself released with it
SCENARIO(C18, unwrap_prompt) {
  init();
  {
    const int way = mc::choose(5), order = mc::choose(3), fin = mc::choose(3);
    auto in = pc::make_promise<Tracked>();
    pc::promise<int> start{pc::make_promise<int>().first};
    pc::packaged_task<pc::future<Tracked>()> t;
    pc::packaged_task<pc::shared_future<Tracked>()> ts;
    pc::future<Tracked> f;
    pc::shared_future<Tracked> fs;
    {
      pc::future<Tracked> i = in.second.next([c = Tracked(1)](Tracked v) { return Tracked(v.get() + c.get()); });
      auto x = pc::make_promise<int>();
      switch (way) {
      case 0:
        t = pc::packaged_task<pc::future<Tracked>()>([i = std::move(i), c = Tracked(2)]() mutable { return std::move(i); });
        f = t.get_future();
        break;
      case 1:
        ts = pc::packaged_task<pc::shared_future<Tracked>()>([i = i.share(), c = Tracked(2)]() mutable { return i; });
        fs = ts.get_future();
        break;
      case 2:
        f = x.second.next([i = std::move(i), c = Tracked(2)](int) mutable { return std::move(i); });
        start = std::move(x.first);
        break;
      case 3:
        f = x.second.share().then([i = std::move(i), c = Tracked(2)](pc::shared_future<int>) mutable { return std::move(i); });
        start = std::move(x.first);
        break;
      case 4:
        f = x.second.then([i = std::move(i), c = Tracked(2)](pc::future<int>) mutable { return std::move(i); });
        start = std::move(x.first);
        break;
      }
    }
    CHECK(live_tracked() == 2);
    auto go = [&] {
      if (way == 0)
        t();
      else if (way == 1)
        ts();
      else
        start.set_value(1);
    };
    auto drop = [&] {
      f = pc::future<Tracked>();
      fs = pc::shared_future<Tracked>();
    };
    if (order == 0) { // outer dropped while the inner one is pending
      go();
      CHECK(live_tracked() == 1, "(%ld)", live_tracked());
      drop();
      CHECK(live_tracked() == 0, "%ld objects kept for a dropped future", live_tracked());
      CHECK(!in.first.is_awaiten());
    } else if (order == 1) { // dropped before anything ran
      drop();
      CHECK(live_tracked() == 0, "%ld objects kept for a dropped future", live_tracked());
      go();
    } else
      go();
    if (fin == 0)
      in.first.set_value(Tracked(1));
    else if (fin == 1)
      in.first.set_exception(err(1));
    if (order == 2 && fin == 0) {
      CHECK(live_tracked() == 1, "(%ld)", live_tracked());
      drop();
    }
    if (!(order == 2 && fin == 2))
      CHECK(live_tracked() == 0, "(%ld)", live_tracked());
  }
  NO_TRACKED_LEFT();
}
