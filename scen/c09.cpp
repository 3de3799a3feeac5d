// C09: cancel actions and is_awaiten tell truthfully whether anyone awaits.
#include "common.h"

// ---------------------------------------------------------------- histories against a model
// One promise with a cancel action; every way to depend on its result is a model variable.
template <typename T> struct Sys {
  using tup = std::tuple<pc::future<T>, pc::future<void>>;
  using stup = std::tuple<pc::shared_future<T>, pc::future<void>>;
  Queue q;
  mc::ghost cancels;
  std::unique_ptr<pc::promise<T>> p;
  pc::future<T> f;
  pc::shared_future<T> s[2];
  pc::future<void> c;
  pc::future<void> cq; // continuation through the queue
  pc::promise<void> other{pc::make_promise<void>().first};
  pc::future<tup> all;
  pc::future<pc::when_any_result<stup>> any;
  // model
  bool supplied = false, cancelled = false;
  bool C = false, CQ = false, D = false, W = false, A = false, other_set = false, comb_used = false;
  bool unknown_after = false; // combinators may keep inputs alive after completion

  explicit Sys(bool by_ctor) {
    auto act = [n = cancels, this, cap = Tracked(1)] {
      CHECK(cap.get() == 1);
      n.bump();
      if (p)
        CHECK(!p->is_awaiten(), "still awaited while being cancelled");
    };
    if (by_ctor) {
      p.reset(new pc::promise<T>(pc::canceler_arg, std::move(act)));
      CHECK(p->is_awaiten());
      f = p->get_future();
    } else {
      auto x = pc::make_promise<T>(pc::canceler_arg, std::move(act));
      p.reset(new pc::promise<T>(std::move(x.first)));
      f = std::move(x.second);
    }
  }
  bool held() const { return f.valid() || s[0].valid() || s[1].valid() || C || CQ || D || W || A; }
  void on_supply() {
    supplied = true;
    D = false;
    C = false;
    if (W || A)
      unknown_after = true;
  }
  void check() {
    if (!supplied && !held())
      cancelled = true;
    CHECK(cancels.peek() == cancelled, "cancel action invoked %ld times, expected %d", cancels.peek(), (int)cancelled);
    if (p && !unknown_after)
      CHECK(p->is_awaiten() == held(), "is_awaiten is %d", (int)p->is_awaiten());
    if (p && f.valid())
      CHECK(p->is_awaiten());
  }
  // applicable operations
  int ops(int *o) const {
    int n = 0;
    if (p && !supplied && !cancelled) {
      o[n++] = 0;
      o[n++] = 1;
    }
    if (p)
      o[n++] = 2;
    if (f.valid()) {
      o[n++] = 3;
      o[n++] = 4;
      if (!c.valid() && !C)
        o[n++] = 8;
      if (!D && !supplied)
        o[n++] = 14;
      if (!comb_used)
        o[n++] = 11;
    }
    if (s[0].valid()) {
      o[n++] = 6;
      if (!s[1].valid())
        o[n++] = 5;
      if (!cq.valid() && !CQ)
        o[n++] = 9;
      if (!comb_used)
        o[n++] = 12;
      if (!D && !supplied)
        o[n++] = 18;
    }
    if (s[1].valid())
      o[n++] = 7;
    if (c.valid())
      o[n++] = 10;
    if (cq.valid())
      o[n++] = 19;
    if (all.valid() || any.valid())
      o[n++] = 13;
    if (!q.q.empty())
      o[n++] = 15;
    if (comb_used && !other_set)
      o[n++] = 16;
    if (any.valid() && A && other_set && !supplied)
      o[n++] = 17;
    return n;
  }
  void run(int op) {
    switch (op) {
    case 0:
      set_id<T>(*p, 1);
      on_supply();
      break;
    case 1:
      p->set_exception(err(1));
      on_supply();
      break;
    case 2:
      p.reset();
      if (!supplied && !cancelled)
        on_supply(); // broken promise
      break;
    case 3:
      f = pc::future<T>();
      break;
    case 4:
      s[0] = f.share();
      break;
    case 5:
      s[1] = s[0];
      break;
    case 6:
      s[0] = pc::shared_future<T>();
      break;
    case 7:
      s[1] = pc::shared_future<T>();
      break;
    case 8:
      c = f.then([](pc::future<T>) {});
      C = !supplied;
      break;
    case 9:
      cq = s[0].then(qexec{&q}, [](pc::shared_future<T>) {});
      CQ = true;
      break;
    case 10:
      c = pc::future<void>();
      C = false;
      break;
    case 19:
      cq = pc::future<void>();
      CQ = false;
      break;
    case 11: {
      auto x = pc::make_promise<void>();
      other = std::move(x.first);
      all = pc::when_all(std::move(f), std::move(x.second));
      comb_used = W = true;
      if (supplied)
        unknown_after = true;
      break;
    }
    case 12: {
      auto x = pc::make_promise<void>();
      other = std::move(x.first);
      any = pc::when_any(s[0], std::move(x.second));
      comb_used = A = true;
      if (supplied)
        unknown_after = true;
      break;
    }
    case 13:
      all = pc::future<tup>();
      any = pc::future<pc::when_any_result<stup>>();
      break;
    case 14:
      f = f.detach();
      D = true;
      break;
    case 18:
      s[0] = s[0].detach();
      D = true;
      break;
    case 15:
      q.run_all();
      CQ = false;
      break;
    case 16:
      other.set_value();
      other_set = true;
      break;
    case 17: { // take the result of when_any: the pending input is ours again
      auto r = any.get();
      CHECK(r.index == 1);
      s[0] = std::move(std::get<0>(r.futures));
      A = false;
      break;
    }
    }
  }
};
template <typename T> static void history(int len) {
  init();
  {
    Sys<T> y(mc::choose(2));
    y.check();
    for (int k = 0; k < len; k++) {
      int o[32], n = y.ops(o);
      if (!n)
        break;
      y.run(o[mc::choose(n)]);
      y.check();
    }
    // wind up
    if (y.q.run_all())
      y.CQ = false;
    y.check();
  }
  NO_TRACKED_LEFT();
}
SCENARIO(C09, history_int) { history<int>(mc::thorough() ? 9 : 7); }
SCENARIO(C09, history_void) { history<void>(mc::thorough() ? 8 : 6); }
SCENARIO(C09, history_ref) { history<int &>(mc::thorough() ? 8 : 6); }

// flavours of the cancel action
struct Act { // copyable, counts live instances through Tracked
  mc::ghost n;
  Tracked t;
  void operator()() const {
    CHECK(t.get() == 3);
    n.bump();
  }
};
static void plain_action();
static mc::ghost *g_plain;
static void plain_action() { g_plain->bump(); }
SCENARIO(C09, action_kinds) {
  init();
  {
    const int k = mc::choose(5), end = mc::choose(4);
    mc::ghost n;
    g_plain = &n;
    pc::future<int> f;
    pc::promise<int> p{pc::make_promise<int>().first};
    auto take = [&](std::pair<pc::promise<int>, pc::future<int>> x) {
      p = std::move(x.first);
      f = std::move(x.second);
    };
    switch (k) {
    case 0: {
      const Act a{n, Tracked(3)};
      take(pc::make_promise<int>(pc::canceler_arg, a));
      break;
    }
    case 1: {
      Act a{n, Tracked(3)};
      take(pc::make_promise<int>(pc::canceler_arg, a));
      break;
    }
    case 2:
      take(pc::make_promise<int>(pc::canceler_arg, [n, u = uptr(new int(1))] {
        CHECK(*u == 1);
        n.bump();
      }));
      break;
    case 3:
      take(pc::make_promise<int>(pc::canceler_arg, plain_action));
      break;
    case 4: {
      Act a{n, Tracked(3)};
      take(pc::make_promise<int>(pc::canceler_arg, std::move(a)));
      break;
    }
    }
    CHECK(live_tracked() == (k == 0 || k == 1 || k == 4));
    CHECK(n.peek() == 0);
    switch (end) {
    case 0:
      f = pc::future<int>();
      CHECK(n.peek() == 1 && !p.is_awaiten());
      p.set_value(1);
      break;
    case 1:
      p.set_value(1);
      CHECK(f.get() == 1);
      break;
    case 2: {
      pc::promise<int> gone(std::move(p));
    }
      CHECK(get_outcome(f) == BROKEN);
      break;
    case 3: {
      p.set_exception(err(1));
      pc::future<int> g = f.next([](int v) { return v; });
      g = pc::future<int>();
      break;
    }
    }
    f = pc::future<int>();
    CHECK(n.peek() == (end == 0), "(%ld)", n.peek());
    CHECK(live_tracked() == 0);
  }
}
// is_awaiten along a chain and inside an interruptible continuation
SCENARIO(C09, chain) {
  init();
  {
    const int depth = 1 + mc::choose(3), when = mc::choose(3);
    mc::ghost n;
    Queue q;
    auto x = pc::make_promise<int>(pc::canceler_arg, [n] { n.bump(); });
    pc::future<int> f = std::move(x.second);
    for (int i = 0; i < depth; i++) {
      switch (mc::choose(4)) {
      case 0:
        f = f.next(qexec{&q}, [](int v) { return v + 1; });
        break;
      case 1:
        f = f.share().next([](int v) { return v + 1; });
        break;
      case 2:
        f = f.then([](pc::promise<int> p, pc::future<int> v) { p.set_value(v.get() + 1); });
        break;
      case 3:
        f = f.next(qexec{&q}, [](int v) { return pc::make_ready_future(v + 1); });
        break;
      }
      CHECK(x.first.is_awaiten());
    }
    if (when == 0) {
      f = pc::future<int>();
      CHECK(n.peek() == 1 && !x.first.is_awaiten());
    }
    x.first.set_value(0);
    if (when == 1)
      f = pc::future<int>();
    q.run_all();
    CHECK(!x.first.is_awaiten());
    CHECK(n.peek() == (when == 0));
    if (when == 2)
      CHECK(f.get() == depth);
  }
}

// ---------------------------------------------------------------- races
struct R {
  mc::ghost n, dropped, set;
};
// one future dropped against one completion; h: how the promise ends
template <typename T> static void race(int n_h) {
  init();
  {
    R r;
    const int h = mc::choose(n_h);
    mc::ghost supplied;
    auto x = pc::make_promise<T>(pc::canceler_arg, [r, supplied, cap = Tracked(1)] {
      CHECK(cap.get() == 1);
      r.n.add();
      CHECK(supplied.get() == 0, "cancelled although a result had been supplied");
    });
    x.second.notify([supplied, r] {
      supplied.add();
      CHECK(r.n.get() == 0, "supplied although cancelled");
    });
    thr t([f = std::move(x.second), r]() mutable {
      const bool s = r.set.get();
      f = pc::future<T>();
      r.dropped.set(1);
      if (s)
        CHECK(r.n.peek() == 0);
    });
    const bool d = r.dropped.get();
    if (d)
      CHECK(r.n.peek() == 1, "not cancelled although the last future is gone");
    if (h == 3) {
      const bool aw = x.first.is_awaiten();
      if (d)
        CHECK(!aw);
      else if (!aw)
        CHECK(!x.first.is_awaiten(), "is_awaiten came back");
    }
    switch (h) {
    case 0:
    case 3:
      set_id<T>(x.first, 1);
      break;
    case 1:
      x.first.set_exception(err(1));
      break;
    case 2: {
      pc::promise<T> gone(std::move(x.first));
    }
    }
    if (supplied.peek())
      r.set.set(1);
    t = thr();
    CHECK(r.n.peek() + supplied.peek() == 1, "cancelled %ld times, supplied %ld times", r.n.peek(), supplied.peek());
    if (h != 2)
      CHECK(!x.first.is_awaiten());
    CHECK(live_tracked() == 0);
    mc::outcome("h%d cancel %ld", h, r.n.peek());
  }
}
SCENARIO(C09, race_int, o.preempt = -1) { race<int>(4); }
SCENARIO(C09, race_void, o.preempt = -1) { race<void>(3); }
SCENARIO(C09, race_tracked, o.preempt = 4) { race<Tracked>(3); }

// two copies dropped by two threads: the action runs exactly once, is_awaiten is true before the first drop
SCENARIO(C09, race_copies, o.preempt = 4) {
  init();
  R r;
  auto x = pc::make_promise<int>(pc::canceler_arg, [r] { r.n.add(); });
  pc::shared_future<int> s = x.second.share();
  thr a([s]() mutable { s = pc::shared_future<int>(); });
  thr b([s]() mutable {
    pc::shared_future<int> c(s);
    s = pc::shared_future<int>();
  });
  CHECK(x.first.is_awaiten() && r.n.get() == 0, "cancelled although a copy is alive");
  s = pc::shared_future<int>();
  a = thr();
  b = thr();
  CHECK(r.n.peek() == 1 && !x.first.is_awaiten());
}
// is_awaiten asked by the producer while the consumer drops: never false early, monotonic
SCENARIO(C09, race_ask, o.preempt = 4) {
  init();
  R r;
  const int how = mc::choose(4);
  auto x = pc::make_promise<int>(pc::canceler_arg, [r] { r.n.bump(); });
  mc::ghost dropping;
  thr t([f = std::move(x.second), r, dropping, how]() mutable {
    pc::future<void> g;
    pc::shared_future<int> s;
    if (how == 1)
      g = f.then([](pc::future<int>) {});
    else if (how == 2)
      s = f.share();
    else if (how == 3)
      g = f.share().next([](int) {});
    dropping.set(1);
    f = pc::future<int>();
    s = pc::shared_future<int>();
    g = pc::future<void>();
    r.dropped.set(1);
  });
  bool prev = true;
  for (int i = 0; i < 3; i++) {
    const bool before = r.dropped.get();
    const bool aw = x.first.is_awaiten();
    const bool started = dropping.get();
    CHECK(prev || !aw, "is_awaiten came back");
    if (!started)
      CHECK(aw, "not awaited although nothing was dropped");
    if (before)
      CHECK(!aw, "still awaited although everything was dropped");
    prev = aw;
  }
  t = thr();
  CHECK(r.n.peek() == 1 && !x.first.is_awaiten());
}
// continuation future dropped against completion
static void race_cont(int kind) {
  init();
  {
    R r;
    MtQueue q;
    auto x = pc::make_promise<int>(pc::canceler_arg, [r] { r.n.bump(); });
    pc::future<int> g;
    if (kind == 0)
      g = x.second.next([](int v) { return v; });
    else if (kind == 1)
      g = x.second.share().then([](pc::shared_future<int> v) { return v.get(); });
    else if (kind == 2)
      g = x.second.next(mtexec{&q}, [](int v) { return v; });
    else
      g = x.second.then([](pc::promise<int> p, pc::future<int> v) {
        p.is_awaiten();
        p.set_value(v.get());
      });
    thr t([g = std::move(g), r]() mutable {
      g = pc::future<int>();
      r.dropped.set(1);
    });
    const bool d = r.dropped.get();
    if (d)
      CHECK(r.n.peek() == 1 && !x.first.is_awaiten());
    x.first.set_value(1);
    q.run_all();
    t = thr();
    CHECK(r.n.peek() <= 1 && !x.first.is_awaiten());
  }
}
SCENARIO(C09, race_next, o.preempt = 4) { race_cont(0); }
SCENARIO(C09, race_shared_then, o.preempt = 4) { race_cont(1); }
SCENARIO(C09, race_queued, o.preempt = 3) { race_cont(2); }
SCENARIO(C09, race_interruptible, o.preempt = 4) { race_cont(3); }

// the promise is destroyed by one thread and the future by another, with a copy in a third
SCENARIO(C09, race_three, o.preempt = 3; o.preempt_max = 6) {
  init();
  R r;
  const int h = mc::choose(2);
  auto x = pc::make_promise<int>(pc::canceler_arg, [r] { r.n.bump(); });
  pc::shared_future<int> s = x.second.share();
  thr a([s]() mutable { s = pc::shared_future<int>(); });
  thr b([p = std::move(x.first), h]() mutable {
    if (h)
      p.set_value(1);
    else {
      pc::promise<int> gone(std::move(p));
    }
  });
  s = pc::shared_future<int>();
  a = thr();
  b = thr();
  CHECK(r.n.peek() <= 1);
  mc::outcome("cancel %ld", r.n.peek());
}
// share() and moves between threads do not look like the end of the interest
SCENARIO(C09, handover, o.preempt = 4) {
  init();
  R r;
  auto x = pc::make_promise<int>(pc::canceler_arg, [r] { r.n.bump(); });
  thr t([f = std::move(x.second)]() mutable {
    pc::future<int> g = std::move(f);
    pc::shared_future<int> s = g.share();
    pc::shared_future<int> c = s;
    s = pc::shared_future<int>();
    pc::future<int> n = c.next([](int v) { return v + 1; });
    c = pc::shared_future<int>();
    CHECK(n.get() == 2);
  });
  CHECK(x.first.is_awaiten(), "interest lost");
  x.first.set_value(1);
  t = thr();
  CHECK(r.n.peek() == 0);
}
// an interruptible continuation asks its own promise
template <typename Parent> static void interruptible_ask(Parent parent) {
  init();
  R r;
  Queue q;
  mc::ghost asked;
  pc::future<int> f =
      parent.then(qexec{&q}, [r, asked](pc::promise<int> p, Parent v) {
        asked.bump();
        bool prev = true;
        for (int i = 0; i < 2; i++) {
          const bool d = r.dropped.get();
          const bool aw = p.is_awaiten();
          CHECK(prev || !aw);
          if (d)
            CHECK(!aw, "awaited although the future is gone");
          prev = aw;
        }
        p.set_value(v.get());
      });
  thr t([f = std::move(f), r]() mutable {
    f = pc::future<int>();
    r.dropped.set(1);
  });
  q.run_all();
  t = thr();
  mc::outcome("ran %ld", asked.peek());
}
SCENARIO(C09, interruptible_ask, o.preempt = 4) { interruptible_ask(pc::make_ready_future(1)); }
SCENARIO(C09, interruptible_ask_shared, o.preempt = 4) { interruptible_ask(pc::make_ready_future(1).share()); }

// the continuation holds the promise: whoever drops the future, from wherever, is seen at once
template <typename T, typename Parent> static void interruptible_drop(int when) {
  init();
  {
    const int ex = mc::choose(2), keep = mc::choose(2);
    Queue q;
    auto x = pc::make_promise<T>();
    Parent parent(std::move(x.second));
    pc::future<int> res;
    pc::shared_future<int> sres;
    pc::promise<int> later{pc::make_promise<int>().first};
    mc::ghost ran;
    auto fn = [&, ran, keep](pc::promise<int> p, Parent) {
      ran.bump();
      CHECK(p.is_awaiten(), "nobody awaits although the future is alive");
      if (keep)
        later = std::move(p);
      res = pc::future<int>();
      CHECK((keep ? later : p).is_awaiten() == sres.valid(), "awaited although every future is gone");
      sres = pc::shared_future<int>();
      CHECK(!(keep ? later : p).is_awaiten(), "awaited although every future is gone");
    };
    if (when)
      set_id<T>(x.first, 1);
    if (ex || when) {
      res = parent.then(qexec{&q}, fn);
    } else
      res = parent.then(fn);
    if (mc::choose(2))
      sres = res.share();
    if (!when)
      set_id<T>(x.first, 1);
    q.run_all();
    CHECK(ran.peek() == 1);
    if (keep) {
      CHECK(!later.is_awaiten());
      later.set_value(1);
    }
  }
}
SCENARIO(C09, interruptible_drop) {
  switch (mc::choose(4)) {
  case 0:
    return interruptible_drop<int, pc::future<int>>(mc::choose(2));
  case 1:
    return interruptible_drop<int, pc::shared_future<int>>(mc::choose(2));
  case 2:
    return interruptible_drop<void, pc::future<void>>(mc::choose(2));
  default:
    return interruptible_drop<void, pc::shared_future<void>>(mc::choose(2));
  }
}
