// C04: every notification and continuation is scheduled exactly once, on its executor.
#include "common.h"

enum { OP_NOTIFY, OP_THEN, OP_NEXT, OP_ITHEN, N_OPS };
enum { EX_NONE, EX_INPLACE, EX_INL, EX_QUEUE, N_EX };

// Everything one attachment is expected to do.
struct Probe {
  mc::ghost runs, where, tid;
  void hit() const {
    runs.bump();
    where.poke(cur_exec());
    tid.poke(mc::tid());
  }
};

template <typename Fut> struct arg_of;
template <typename T> struct arg_of<pc::future<T>> {
  using type = T;
};
template <typename T> struct arg_of<pc::shared_future<T>> {
  using type = const T &;
};
template <> struct arg_of<pc::future<void>> {
  using type = void;
};
template <> struct arg_of<pc::shared_future<void>> {
  using type = void;
};
template <typename A> struct next_fn {
  Probe p;
  int operator()(A) const {
    p.hit();
    return 1;
  }
};
template <> struct next_fn<void> {
  Probe p;
  int operator()() const {
    p.hit();
    return 1;
  }
};

// attaches through the given operation, returns the continuation's future (invalid for notify)
template <typename Fut, typename E> pc::future<int> attach_on(Fut &f, E e, int op, Probe p) {
  switch (op) {
  case OP_NOTIFY:
    f.notify(e, [p] { p.hit(); });
    return {};
  case OP_THEN:
    return f.then(e, [p](Fut x) {
      CHECK(x.is_ready());
      p.hit();
      return 1;
    });
  case OP_NEXT:
    return f.next(e, next_fn<typename arg_of<Fut>::type>{p});
  default:
    return f.then(e, [p](pc::promise<int> r, Fut x) {
      CHECK(x.is_ready());
      p.hit();
      r.set_value(1);
    });
  }
}
template <typename Fut> pc::future<int> attach_plain(Fut &f, int op, Probe p) {
  switch (op) {
  case OP_NOTIFY:
    f.notify([p] { p.hit(); });
    return {};
  case OP_THEN:
    return f.then([p](Fut x) {
      CHECK(x.is_ready());
      p.hit();
      return 1;
    });
  case OP_NEXT:
    return f.next(next_fn<typename arg_of<Fut>::type>{p});
  default:
    return f.then([p](pc::promise<int> r, Fut x) {
      CHECK(x.is_ready());
      p.hit();
      r.set_value(1);
    });
  }
}
template <typename Fut> pc::future<int> attach(Fut &f, int op, int ex, Probe p, MtQueue *q) {
  switch (ex) {
  case EX_NONE:
    return attach_plain(f, op, p);
  case EX_INPLACE:
    return attach_on(f, pc::inplace_executor, op, p);
  case EX_INL:
    return attach_on(f, inl{5}, op, p);
  default:
    return attach_on(f, mtexec{q}, op, p);
  }
}
static long want_where(int ex) { return ex == EX_INL ? 5 : ex == EX_QUEUE ? 2 : 0; }

template <typename T> static void complete(pc::promise<T> &p, int how) {
  if (how == 0)
    set_id<T>(p, 1);
  else if (how == 1)
    p.set_exception(err(2));
  else {
    pc::promise<T> gone(std::move(p));
  }
}
// a next-continuation of a failed parent is completed without invoking its function
static int want_runs(int op, int how) { return op == OP_NEXT && how != 0 ? 0 : 1; }

// one attachment; before, after or racing with completion
template <typename T, bool SHARED> static void one() {
  init();
  using Fut = std::conditional_t<SHARED, pc::shared_future<T>, pc::future<T>>;
  int op = mc::choose(N_OPS), ex = mc::choose(N_EX), when = mc::choose(3);
  int how = when == 2 ? 0 : mc::choose(3);
  MtQueue q;
  {
    auto x = pc::make_promise<T>();
    Fut f(std::move(x.second));
    Probe p;
    pc::future<int> g;
    if (when == 0) { // attach first
      g = attach(f, op, ex, p, &q);
      CHECK(p.runs.peek() == 0 && q.posts == 0 && ctr().v[30 + 5] == 0, "scheduled before the future is ready");
      complete(x.first, how);
    } else if (when == 1) { // complete first
      complete(x.first, how);
      g = attach(f, op, ex, p, &q);
      if (ex != EX_QUEUE)
        CHECK(p.runs.peek() == want_runs(op, how), "attached to a ready future, not run at once");
      else
        CHECK(q.posts == 1, "attached to a ready future, not posted at once");
    } else { // race
      int completer = -1;
      {
        thr t([p = std::move(x.first)]() mutable { complete(p, 0); });
        g = attach(f, op, ex, p, &q);
        completer = 1;
      }
      if (ex != EX_QUEUE && p.runs.peek() == 1)
        CHECK(p.tid.peek() == 0 || p.tid.peek() == completer, "run in T%ld", p.tid.peek());
      mc::outcome("in T%ld", p.tid.peek());
    }
    if (ex == EX_QUEUE) {
      CHECK(p.runs.peek() == 0, "run outside of its executor");
      CHECK(q.posts == 1, "(posted %d times)", q.posts);
      CHECK(q.run_all() == 1);
    } else
      CHECK(q.posts == 0);
    if (ex == EX_INL)
      CHECK(ctr().v[30 + 5] == 1, "(posted %ld times)", ctr().v[30 + 5]);
    CHECK(p.runs.peek() == want_runs(op, how), "(%ld runs)", p.runs.peek());
    if (p.runs.peek())
      CHECK(p.where.peek() == want_where(ex), "(ran on executor %ld)", p.where.peek());
    if (op != OP_NOTIFY) {
      CHECK(g.is_ready());
      int o = get_outcome(g);
      CHECK(o == (op == OP_NEXT && how == 1 ? EXC - 2 : op == OP_NEXT && how == 2 ? BROKEN : 1 - 1000), "(%d)", o);
    }
    q.run_all();
    CHECK(p.runs.peek() == want_runs(op, how));
  }
}
SCENARIO(C04, one_int, o.preempt = 3; o.preempt_max = -1) { one<int, false>(); }
SCENARIO(C04, one_void, o.preempt = 3; o.preempt_max = -1) { one<void, false>(); }
SCENARIO(C04, one_shared_int, o.preempt = 3; o.preempt_max = -1) { one<int, true>(); }
SCENARIO(C04, one_shared_void, o.preempt = 3; o.preempt_max = -1) { one<void, true>(); }
SCENARIO(C04, one_uptr, o.preempt = 3; o.preempt_max = -1) { one<uptr, false>(); }

// two threads attach while a third completes
static void two(int op1, int op2, int ex1, int ex2) {
  init();
  MtQueue q;
  Probe p1, p2;
  {
    auto x = pc::make_promise<int>();
    pc::shared_future<int> f = x.second.share(), h = f;
    pc::future<int> g1, g2;
    {
      thr t([p = std::move(x.first)]() mutable { complete(p, 0); });
      thr u([h = std::move(h), &g2, op2, ex2, p2, &q]() mutable { g2 = attach(h, op2, ex2, p2, &q); });
      g1 = attach(f, op1, ex1, p1, &q);
    }
    int posted = (ex1 == EX_QUEUE) + (ex2 == EX_QUEUE);
    CHECK(q.posts == posted);
    if (ex1 != EX_QUEUE)
      CHECK(p1.runs.peek() == 1);
    if (ex2 != EX_QUEUE)
      CHECK(p2.runs.peek() == 1);
    CHECK(q.run_all() == posted);
    CHECK(p1.runs.peek() == 1 && p2.runs.peek() == 1, "(%ld %ld)", p1.runs.peek(), p2.runs.peek());
    CHECK(p1.where.peek() == want_where(ex1) && p2.where.peek() == want_where(ex2));
    for (int i = 0; i < 2; i++) {
      pc::future<int> &g = i ? g2 : g1;
      if ((i ? op2 : op1) != OP_NOTIFY)
        CHECK(g.get() == 1);
    }
  }
}
SCENARIO(C04, two_notify, o.preempt = 3; o.preempt_max = -1) { two(OP_NOTIFY, OP_NOTIFY, EX_NONE, EX_NONE); }
SCENARIO(C04, two_notify_exec, o.preempt = 3; o.preempt_max = -1) { two(OP_NOTIFY, OP_NOTIFY, EX_QUEUE, EX_INL); }
SCENARIO(C04, two_then, o.preempt = 3; o.preempt_max = -1) { two(OP_THEN, OP_NEXT, EX_NONE, EX_NONE); }
SCENARIO(C04, two_then_exec, o.preempt = 3; o.preempt_max = -1) { two(OP_THEN, OP_NEXT, EX_QUEUE, EX_QUEUE); }
SCENARIO(C04, two_mixed, o.preempt = 3; o.preempt_max = -1) { two(OP_NEXT, OP_NOTIFY, EX_INL, EX_NONE); }

// several pending attachments of one thread plus one racing
SCENARIO(C04, many_pending, o.preempt = 3; o.preempt_max = -1) {
  init();
  mc::ghost n[5];
  {
    auto x = pc::make_promise<int>();
    pc::shared_future<int> f = x.second.share();
    f.notify([c = n[0]] { c.bump(); });
    auto g1 = f.next([c = n[1]](int) { c.bump(); });
    f.notify(inl{4}, [c = n[2]] { c.bump(); });
    auto h = f;
    thr t([p = std::move(x.first)]() mutable { complete(p, 0); });
    thr u([h = std::move(h), c = n[3]]() mutable { h.notify([c] { c.bump(); }); });
    auto g2 = f.then([c = n[4]](pc::shared_future<int>) { c.bump(); });
    g1.get();
    g2.get();
  }
  for (auto &c : n)
    CHECK(c.peek() == 1, "(%ld)", c.peek());
  CHECK(ctr().v[34] == 1);
}
// all combinations of operation pairs attached one after the other, completion at every position
SCENARIO(C04, sequences) {
  init();
  MtQueue q;
  {
    auto x = pc::make_promise<int>();
    pc::shared_future<int> f = x.second.share();
    Probe p[4];
    int op[4], ex[4];
    pc::future<int> g[4];
    int n = mc::thorough() ? 3 : 2, at = mc::choose(n + 1);
    for (int i = 0; i < n; i++) {
      if (i == at)
        complete(x.first, 0);
      op[i] = mc::choose(3);
      ex[i] = mc::choose(N_EX);
      g[i] = attach(f, op[i], ex[i], p[i], &q);
    }
    if (at == n)
      complete(x.first, 0);
    q.run_all();
    for (int i = 0; i < n; i++) {
      CHECK(p[i].runs.peek() == 1, "(attachment %d of %d ran %ld times)", i, n, p[i].runs.peek());
      CHECK(p[i].where.peek() == want_where(ex[i]));
      if (op[i] != OP_NOTIFY)
        CHECK(g[i].get() == 1);
    }
    CHECK(q.run_all() == 0);
  }
}
// on a pool: exactly once, on a worker
SCENARIO(C04, pool, o.preempt = 3; o.preempt_max = -1) {
  init();
  int op = mc::choose(N_OPS);
  Probe p;
  {
    pc::static_thread_pool pool(1);
    auto x = pc::make_promise<int>();
    pc::future<int> f(std::move(x.second));
    thr t([p = std::move(x.first)]() mutable { complete(p, 0); });
    auto g = attach_on(f, pool.executor(), op, p);
    if (g.valid())
      CHECK(g.get() == 1);
    t.join();
    pool.wait();
  }
  CHECK(p.runs.peek() == 1);
  CHECK(p.tid.peek() == 1, "(ran in T%ld)", p.tid.peek());
}
// attachments on futures of tasks, continuations, combinations and unwrapped futures
SCENARIO(C04, other_sources, o.preempt = 3; o.preempt_max = -1) {
  init();
  int src = mc::choose(5), op = mc::choose(3), ex = mc::choose(2) ? EX_QUEUE : EX_NONE;
  MtQueue q;
  Probe p;
  {
    auto x = pc::make_promise<int>();
    pc::future<int> f;
    pc::packaged_task<int()> task([] { return 1001; });
    switch (src) {
    case 0:
      f = task.get_future();
      break;
    case 1:
      f = x.second.next([](int v) { return v; });
      break;
    case 2:
      f = x.second.then([](pc::promise<int> r, pc::future<int> v) { r.set_value(v.get()); });
      break;
    case 3:
      f = pc::when_all(std::move(x.second)).next([](std::tuple<pc::future<int>> t) { return std::get<0>(t).get(); });
      break;
    case 4:
      f = pc::make_ready_future().next([g = std::move(x.second)]() mutable { return std::move(g); });
      break;
    }
    pc::future<int> g;
    {
      thr t([p = std::move(x.first), task = std::move(task), src]() mutable {
        if (src == 0)
          task();
        else
          complete(p, 0);
      });
      g = attach(f, op, ex, p, &q);
    }
    CHECK(q.posts == (ex == EX_QUEUE));
    if (ex != EX_QUEUE)
      CHECK(p.runs.peek() == 1);
    q.run_all();
    CHECK(p.runs.peek() == 1 && p.where.peek() == want_where(ex));
    if (op != OP_NOTIFY)
      CHECK(g.get() == 1);
  }
}
// attached to when_all / when_any results directly
SCENARIO(C04, combination_notify, o.preempt = 3; o.preempt_max = -1) {
  init();
  int any = mc::choose(2);
  mc::ghost n, m;
  auto a = pc::make_promise<int>();
  auto b = pc::make_promise<int>();
  auto go = [&](auto f) {
    thr t1([p = std::move(a.first)]() mutable { complete(p, 0); });
    thr t2([p = std::move(b.first)]() mutable { complete(p, 0); });
    f.notify([n] { n.bump(); });
    auto g = f.next([m](auto &&) { m.bump(); });
    g.get();
    t1.join();
    t2.join();
  };
  if (any)
    go(pc::when_any(std::move(a.second), std::move(b.second)));
  else
    go(pc::when_all(std::move(a.second), std::move(b.second)));
  CHECK(n.peek() == 1 && m.peek() == 1, "(%ld %ld)", n.peek(), m.peek());
}
// executors with state: the executor object is copied or moved, never used twice
struct once_exec {
  std::shared_ptr<int> used;
};
template <typename F> void post(once_exec e, F &&f) {
  CHECK(e.used, "moved-from executor used");
  CHECK(++*e.used == 1, "executor used twice");
  std::forward<F>(f)();
}
namespace portable_concurrency {
template <> struct is_executor<once_exec> : std::true_type {};
} // namespace portable_concurrency
SCENARIO(C04, stateful_executor) {
  init();
  int op = mc::choose(N_OPS), before = mc::choose(2);
  Probe p;
  auto x = pc::make_promise<int>();
  pc::future<int> f(std::move(x.second));
  once_exec e{std::make_shared<int>(0)};
  if (before)
    complete(x.first, 0);
  auto g = attach_on(f, e, op, p);
  if (!before)
    complete(x.first, 0);
  CHECK(p.runs.peek() == 1 && *e.used == 1);
  if (g.valid())
    CHECK(g.get() == 1);
}
