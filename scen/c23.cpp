// C23: user code may re-enter the library from any callback or destructor.
#include "common.h"

enum { H_VALUE, H_EXC, H_BROKEN };

// Everything a callback may reach.
struct Env {
  pc::promise<Tracked> p{pc::make_promise<Tracked>().first};
  pc::shared_future<Tracked> s;
  pc::future<Tracked> f;
  pc::future<int> r; // the continuation's own future
  pc::promise<int> q{pc::make_promise<int>().first};
  pc::future<int> g; // result of a continuation on q
  pc::shared_future<int> qs;
  bool q_done = false;
  bool mine = true;   // p is (still) the promise of s or f
  bool broken = false; // p was replaced before it had a result
  bool completed = false;
  mc::ghost hits, ran, pending, g_runs;
  Env() {
    auto x = pc::make_promise<Tracked>();
    p = std::move(x.first);
    f = std::move(x.second);
    auto y = pc::make_promise<int>();
    q = std::move(y.first);
    qs = y.second.share();
    g = qs.next([c = g_runs](const int &v) {
      c.bump();
      return v + 1;
    });
  }
};
enum { A_NOTHING, A_NOTIFY, A_THEN, A_GET, A_COMPLETE_OTHER, A_DROP, A_REPLACE, A_AGAIN, A_AWAITEN, A_DROP_OWN, A_DROP_OTHER, A_ATTACH_OTHER, A_TIMED, A_BREAK_OTHER, A_DETACH, A_WHEN, A_N };

static void act(Env &e, int a) {
  e.hits.bump();
  switch (a) {
  case A_NOTIFY:
    if (e.s.valid()) {
      const bool ready = e.s.is_ready();
      const long b = e.ran.peek();
      e.s.notify([c = e.ran] { c.bump(); });
      if (ready)
        CHECK(e.ran.peek() == b + 1, "attached to a ready result but not run");
      else
        e.pending.bump();
    }
    break;
  case A_THEN:
    if (e.s.valid()) {
      const bool ready = e.s.is_ready();
      const long b = e.ran.peek();
      pc::future<int> x = e.s.then([c = e.ran](pc::shared_future<Tracked>) {
        c.bump();
        return 1;
      });
      if (ready)
        CHECK(x.is_ready() && e.ran.peek() == b + 1, "attached to a ready result but not run");
    }
    break;
  case A_GET:
    if (e.s.valid() && e.s.is_ready()) {
      e.s.wait();
      const int o = get_outcome(e.s);
      CHECK(o == 1 || o == EXC - 1 || o == BROKEN, "(%d)", o);
    }
    if (e.f.valid() && e.f.is_ready())
      get_outcome(e.f);
    break;
  case A_COMPLETE_OTHER:
    if (!e.q_done) {
      e.q_done = true;
      e.q.set_value(1004);
      if (e.g.valid())
        CHECK(e.g_runs.peek() == 1 && e.g.is_ready(), "completing another promise from a callback did not run its continuation");
    }
    break;
  case A_DROP:
    e.s = pc::shared_future<Tracked>();
    e.f = pc::future<Tracked>();
    break;
  case A_REPLACE: {
    auto x = pc::make_promise<Tracked>();
    if (e.mine && !e.completed)
      e.broken = true;
    e.mine = false;
    e.p = std::move(x.first);
    CHECK(e.p.is_awaiten());
    x.second = pc::future<Tracked>();
    CHECK(!e.p.is_awaiten());
    break;
  }
  case A_AGAIN: {
    const bool ready = (e.s.valid() && e.s.is_ready()) || (e.f.valid() && e.f.is_ready());
    if (e.mine && !ready)
      break;
    const int o = outcome_of([&] {
      e.p.set_exception(err(7));
      return 0;
    });
    CHECK(o == 0 || o == SATISFIED, "(%d)", o);
    if (e.mine)
      CHECK(o == SATISFIED, "a second result was accepted");
    break;
  }
  case A_AWAITEN: {
    const bool b = e.p.is_awaiten();
    if (e.mine && (e.s.valid() || e.f.valid()))
      CHECK(b, "not awaited although there is a future");
    break;
  }
  case A_DROP_OWN:
    e.r = pc::future<int>();
    break;
  case A_DROP_OTHER:
    e.g = pc::future<int>();
    e.qs = pc::shared_future<int>();
    break;
  case A_ATTACH_OTHER:
    if (e.qs.valid()) {
      const bool ready = e.qs.is_ready();
      const long b = e.ran.peek();
      e.qs.notify([c = e.ran] { c.bump(); });
      if (ready)
        CHECK(e.ran.peek() == b + 1);
      else
        e.pending.bump();
    }
    break;
  case A_TIMED:
    if (e.s.valid()) {
      pc::timed_waiter w(e.s);
      if (e.s.is_ready())
        CHECK(w.wait_for(std::chrono::seconds(0)) == pc::future_status::ready);
    }
    break;
  case A_BREAK_OTHER:
    if (!e.q_done) {
      e.q_done = true;
      pc::promise<int> gone(std::move(e.q));
    }
    break;
  case A_DETACH:
    if (e.s.valid())
      e.s = e.s.detach();
    break;
  case A_WHEN:
    if (e.s.valid() && e.qs.valid()) {
      const bool one = e.s.is_ready() || e.qs.is_ready(), both = e.s.is_ready() && e.qs.is_ready();
      auto x = pc::when_all(e.s, e.qs);
      CHECK(x.is_ready() == both);
      auto y = pc::when_any(e.s, e.qs);
      CHECK(y.is_ready() == one);
      auto z = pc::when_all(e.s, e.s);
      CHECK(z.is_ready() == e.s.is_ready());
    }
    break;
  }
}
// acts when it dies; what is moved from does nothing
struct OnDeath {
  Env *e;
  int a;
  OnDeath(Env *x, int y) : e(x), a(y) {}
  OnDeath(OnDeath &&o) noexcept : e(std::exchange(o.e, nullptr)), a(o.a) {}
  OnDeath(const OnDeath &) = delete;
  OnDeath &operator=(OnDeath &&o) noexcept {
    std::swap(e, o.e);
    std::swap(a, o.a);
    return *this;
  }
  ~OnDeath() {
    if (e)
      act(*e, a);
  }
};
static void complete(Env &e, int how) {
  if (!e.mine)
    return;
  e.completed = true;
  if (how == H_BROKEN)
    e.mine = false;
  if (how == H_VALUE)
    e.p.set_value(Tracked(1));
  else if (how == H_EXC)
    e.p.set_exception(err(1));
  else
    e.p = pc::make_promise<Tracked>().first;
}
static void end(Env &e, int how, bool check_pending = true) {
  if (!e.q_done)
    act(e, A_COMPLETE_OTHER);
  if (e.g.valid()) {
    CHECK(e.g.is_ready());
    get_outcome(e.g);
  }
  if (e.s.valid()) {
    CHECK(e.s.is_ready());
    const int o = get_outcome(e.s);
    CHECK(o == (e.broken ? BROKEN : how == H_VALUE ? 1 : how == H_EXC ? EXC - 1 : BROKEN), "(%d)", o);
  }
  (void)check_pending;
}
// executors for the continuation
enum { E_INPLACE, E_INLINE, E_QUEUE, E_N };

// ---------------------------------------------------------------- notifications and continuations
// two callbacks of any kind on one result, each performing an action
template <typename Cb> static void attach(Env &e, Queue &q, int ctx, int ex, Cb cb) {
  switch (ctx) {
  case 0:
    if (ex == E_INPLACE)
      e.s.notify(cb);
    else if (ex == E_INLINE)
      e.s.notify(inl{1}, cb);
    else
      e.s.notify(qexec{&q}, cb);
    break;
  case 1: {
    auto fn = [cb](pc::shared_future<Tracked> x) {
      CHECK(x.is_ready());
      cb();
      CHECK(x.is_ready()); // what was passed stays there whatever is dropped
      return get_outcome(x);
    };
    e.r = ex == E_INPLACE ? e.s.then(fn) : ex == E_INLINE ? e.s.then(inl{1}, fn) : e.s.then(qexec{&q}, fn);
    break;
  }
  case 2: {
    auto fn = [cb](const Tracked &x) {
      cb();
      return x.get() + 1000;
    };
    e.r = ex == E_INPLACE ? e.s.next(fn) : ex == E_INLINE ? e.s.next(inl{1}, fn) : e.s.next(qexec{&q}, fn);
    break;
  }
  case 3: {
    auto fn = [cb](pc::shared_future<Tracked> x) {
      cb();
      return pc::make_ready_future(get_outcome(x));
    };
    e.r = ex == E_INPLACE ? e.s.then(fn) : ex == E_INLINE ? e.s.then(inl{1}, fn) : e.s.then(qexec{&q}, fn);
    break;
  }
  case 4: {
    auto fn = [cb](pc::promise<int> p, pc::shared_future<Tracked> x) {
      cb();
      p.set_value(get_outcome(x));
      cb();
    };
    pc::shared_future<Tracked> copy = e.s;
    e.r = ex == E_INPLACE ? copy.then(fn) : ex == E_INLINE ? copy.then(inl{1}, fn) : copy.then(qexec{&q}, fn);
    break;
  }
  }
}
static void callbacks(int ctx, int when) {
  init();
  Queue q;
  Env *e = new Env();
  {
    const int ex = mc::choose(E_N), a1 = mc::choose(A_N), a2 = mc::choose(A_N), how = mc::choose(3);
    e->s = e->f.share();
    mc::ghost last, first;
    if (when == 0) {
      e->s.notify([last] { last.bump(); });
      attach(*e, q, ctx, ex, [e, a1] { act(*e, a1); });
      e->s.notify([e, a2] { act(*e, a2); });
      e->s.notify([first] { first.bump(); });
      complete(*e, how);
      CHECK(last.peek() == 1 && first.peek() == 1, "a notification is lost");
    } else {
      complete(*e, how);
      attach(*e, q, ctx, ex, [e, a1] { act(*e, a1); });
      if (e->s.valid())
        e->s.notify([e, a2] { act(*e, a2); });
    }
    const bool own = e->r.valid();
    q.run_all();
    if (ex != E_QUEUE && ctx != 0 && own) {
      CHECK(e->r.is_ready(), "the continuation's future is not ready");
      const int o = get_outcome(e->r);
      (void)o;
    }
    if (ctx == 0)
      CHECK(e->hits.peek() == 2 || (when == 1 && a1 == A_DROP), "(%ld)", e->hits.peek());
    end(*e, how);
  }
  delete e;
  NO_TRACKED_LEFT();
}
SCENARIO(C23, notify_pending) { callbacks(0, 0); }
SCENARIO(C23, notify_ready) { callbacks(0, 1); }
SCENARIO(C23, then_pending) { callbacks(1, 0); }
SCENARIO(C23, then_ready) { callbacks(1, 1); }
SCENARIO(C23, next_pending) { callbacks(2, 0); }
SCENARIO(C23, next_ready) { callbacks(2, 1); }
SCENARIO(C23, unwrap_pending) { callbacks(3, 0); }
SCENARIO(C23, unwrap_ready) { callbacks(3, 1); }
SCENARIO(C23, interruptible_pending) { callbacks(4, 0); }
SCENARIO(C23, interruptible_ready) { callbacks(4, 1); }

// the unique future's own continuation
SCENARIO(C23, unique) {
  init();
  Queue q;
  Env *e = new Env();
  {
    const int op = mc::choose(4), ex = mc::choose(E_N), a1 = mc::choose(A_N), how = mc::choose(3), ready = mc::choose(2);
    if (ready)
      complete(*e, how);
    auto then = [e, a1](pc::future<Tracked> x) {
      act(*e, a1);
      return get_outcome(x);
    };
    auto next = [e, a1](Tracked x) {
      act(*e, a1);
      return x.get() + 1000;
    };
    auto ith = [e, a1](pc::promise<int> p, pc::future<Tracked> x) {
      act(*e, a1);
      p.set_value(get_outcome(x));
    };
    switch (op) {
    case 0:
      e->r = ex == E_INPLACE ? e->f.then(then) : ex == E_INLINE ? e->f.then(inl{1}, then) : e->f.then(qexec{&q}, then);
      break;
    case 1:
      e->r = ex == E_INPLACE ? e->f.next(next) : ex == E_INLINE ? e->f.next(inl{1}, next) : e->f.next(qexec{&q}, next);
      break;
    case 2:
      e->r = ex == E_INPLACE ? e->f.then(ith) : ex == E_INLINE ? e->f.then(inl{1}, ith) : e->f.then(qexec{&q}, ith);
      break;
    case 3:
      e->f.notify([e, a1] { act(*e, a1); });
      break;
    }
    if (!ready)
      complete(*e, how);
    q.run_all();
    const bool called = op != 1 || how == H_VALUE;
    CHECK(e->hits.peek() == called, "(%ld)", e->hits.peek());
    if (e->r.valid())
      CHECK(e->r.is_ready());
    end(*e, how);
  }
  delete e;
  NO_TRACKED_LEFT();
}

// ---------------------------------------------------------------- task functions
SCENARIO(C23, task) {
  init();
  Queue q;
  Env *e = new Env();
  {
    const int a1 = mc::choose(A_N), a2 = mc::choose(A_N), viaq = mc::choose(2), throws = mc::choose(2);
    auto fn = [e, a1, throws] {
      act(*e, a1);
      if (throws)
        throw test_error{1};
      return Tracked(1);
    };
    pc::packaged_task<Tracked()> t;
    pc::future<Tracked> f;
    if (viaq)
      f = pc::async(qexec{&q}, fn);
    else {
      t = pc::packaged_task<Tracked()>(fn);
      f = t.get_future();
    }
    e->mine = false;
    e->s = f.share();
    mc::ghost n;
    e->s.notify([n] { n.bump(); });
    e->s.notify([e, a2] { act(*e, a2); });
    pc::shared_future<Tracked> keep = e->s;
    if (viaq)
      q.run_all();
    else
      t();
    CHECK(n.peek() == 1 && e->hits.peek() == 2);
    CHECK(e->ran.peek() >= e->pending.peek() || a1 == A_ATTACH_OTHER || a2 == A_ATTACH_OTHER, "an attached notification did not run");
    CHECK(keep.is_ready() && get_outcome(keep) == (throws ? EXC - 1 : 1));
    e->s = pc::shared_future<Tracked>();
    end(*e, H_VALUE);
  }
  delete e;
  NO_TRACKED_LEFT();
}
// a running task drops the only future of its own result: it runs to its end
SCENARIO(C23, task_drops_itself) {
  init();
  {
    const int how = mc::choose(4), throws = mc::choose(2);
    Queue q;
    pc::future<Tracked> f;
    pc::promise<int> p = pc::make_promise<int>().first;
    mc::ghost n;
    auto body = [&f, n, throws, t = Tracked(55)](auto &&...) {
      f = pc::future<Tracked>();
      CHECK(t.get() == 55, "the running function was destroyed");
      n.bump();
      if (throws)
        throw test_error{1};
      return Tracked(1);
    };
    pc::packaged_task<Tracked()> task;
    auto x = pc::make_promise<int>();
    p = std::move(x.first);
    if (how == 0) {
      task = pc::packaged_task<Tracked()>(std::move(body));
      f = task.get_future();
      task();
    } else if (how == 1) {
      f = pc::async(qexec{&q}, std::move(body));
      q.run_all();
    } else if (how == 2) {
      f = x.second.next([b = std::move(body)](int v) { return b(v); });
      p.set_value(1);
    } else {
      f = x.second.then(qexec{&q}, [b = std::move(body)](pc::future<int> v) { return b(v); });
      p.set_value(1);
      q.run_all();
    }
    CHECK(n.peek() == 1 && !f.valid());
  }
  NO_TRACKED_LEFT();
}

// ---------------------------------------------------------------- cancel actions
SCENARIO(C23, canceler) {
  init();
  Env *e = new Env();
  {
    const int a1 = mc::choose(A_N), a2 = mc::choose(A_N), how = mc::choose(3);
    auto x = pc::make_promise<Tracked>(pc::canceler_arg, [e, a1, a2] {
      act(*e, a1);
      act(*e, a2);
    });
    e->p = std::move(x.first);
    e->mine = false;
    if (how == 0) {
      e->s = x.second.share();
      e->s = pc::shared_future<Tracked>();
    } else if (how == 1) {
      e->f = std::move(x.second);
      e->f = pc::future<Tracked>();
    } else {
      e->r = x.second.then([t = Tracked(55)](pc::future<Tracked>) { return 1; });
      e->r = pc::future<int>();
    }
    CHECK(e->hits.peek() == 2, "(%ld)", e->hits.peek());
    end(*e, H_VALUE);
  }
  delete e;
  NO_TRACKED_LEFT();
}

// ---------------------------------------------------------------- destructors of captured objects
// the continuation is run, dropped with its future, or reached by a broken promise; its captured object acts when it dies
SCENARIO(C23, captured) {
  init();
  Env *e = new Env();
  Queue q;
  {
    const int ctx = mc::choose(6), a1 = mc::choose(A_N), a2 = mc::choose(A_N), fate = mc::choose(5);
    e->s = e->f.share();
    mc::ghost n;
    e->s.notify([n] { n.bump(); });
    auto d = [&] { return std::make_shared<std::pair<OnDeath, OnDeath>>(OnDeath(e, a1), OnDeath(e, a2)); };
    switch (ctx) {
    case 0:
      e->s.notify([x = d()] {});
      break;
    case 1:
      e->r = e->s.then([x = d()](pc::shared_future<Tracked>) { return 1; });
      break;
    case 2:
      e->r = e->s.next([x = d()](const Tracked &) { return 1; });
      break;
    case 3:
      e->r = e->s.then(qexec{&q}, [x = d()](pc::shared_future<Tracked>) { return 1; });
      break;
    case 4:
      e->r = e->s.then([x = d()](pc::promise<int> p, pc::shared_future<Tracked>) { p.set_value(1); });
      if (!e->s.valid())
        mc::discard();
      break;
    case 5:
      e->s.notify(qexec{&q}, [x = d()] {});
      break;
    }
    switch (fate) {
    case 0:
      complete(*e, H_VALUE);
      q.run_all();
      break;
    case 1:
      complete(*e, H_BROKEN);
      q.run_all();
      break;
    case 2: // drop the continuation's future, then the rest
      e->r = pc::future<int>();
      act(*e, A_DROP);
      break;
    case 3: // completed, but the task is dropped by its executor
      complete(*e, H_EXC);
      q.q.clear();
      break;
    case 4: // dropped from within another callback of the same result
      e->s.notify([e] {
        e->r = pc::future<int>();
        e->s = pc::shared_future<Tracked>();
      });
      complete(*e, H_VALUE);
      q.run_all();
      break;
    }
    if (fate != 2)
      CHECK(n.peek() == 1, "a notification is lost");
    e->r = pc::future<int>();
    act(*e, A_DROP);
    CHECK(e->hits.peek() == (fate == 2 ? 4 : 3), "captured objects died %ld times", e->hits.peek() - (fate == 2 ? 2 : 1));
    end(*e, H_VALUE);
  }
  delete e;
  NO_TRACKED_LEFT();
}
// function objects of tasks
SCENARIO(C23, task_captured) {
  init();
  Env *e = new Env();
  Queue q;
  {
    const int how = mc::choose(5), a1 = mc::choose(A_N), a2 = mc::choose(A_N);
    pc::packaged_task<Tracked()> t([x = OnDeath(e, a1), y = OnDeath(e, a2)]() mutable { return Tracked(1); });
    pc::future<Tracked> f = t.get_future();
    e->mine = false;
    e->s = f.share();
    mc::ghost n;
    e->s.notify([n] { n.bump(); });
    pc::shared_future<Tracked> keep = e->s;
    switch (how) {
    case 0:
      t();
      break;
    case 1: {
      auto gone = std::move(t);
      break;
    }
    case 2:
      t = pc::packaged_task<Tracked()>([] { return Tracked(2); });
      break;
    case 3:
      keep = pc::shared_future<Tracked>();
      e->s = pc::shared_future<Tracked>();
      break;
    case 4: {
      pc::packaged_task<Tracked()> o;
      o.swap(t);
      q.q.push_back(std::move(o));
      q.q.clear();
      break;
    }
    }
    CHECK(e->hits.peek() == 2, "(%ld)", e->hits.peek());
    if (how != 3) {
      CHECK(n.peek() == 1);
      CHECK(keep.is_ready() && get_outcome(keep) == (how == 0 ? 1 : BROKEN));
    }
    e->s = pc::shared_future<Tracked>();
    end(*e, H_VALUE);
  }
  delete e;
  NO_TRACKED_LEFT();
}
// stored values: released when dropped, taken, replaced
struct Val {
  Tracked t{1};
  std::shared_ptr<OnDeath> d;
};
SCENARIO(C23, value) {
  init();
  Env *e = new Env();
  {
    const int how = mc::choose(6), a1 = mc::choose(A_N), a2 = mc::choose(A_N);
    e->s = e->f.share();
    auto x = pc::make_promise<Val>();
    {
      Val v;
      v.d = std::make_shared<OnDeath>(e, a1);
      x.first.set_value(std::move(v));
    }
    CHECK(e->hits.peek() == 0);
    mc::ghost n;
    x.second.notify([n] { n.bump(); });
    switch (how) {
    case 0:
      x.second = pc::future<Val>();
      break;
    case 1:
      x.second.get();
      break;
    case 2: {
      pc::shared_future<Val> s = x.second.share(), s2 = s;
      s.get();
      s = pc::shared_future<Val>();
      CHECK(e->hits.peek() == 0);
      break;
    }
    case 3:
      x.second.next([](Val) {}).get();
      break;
    case 4: {
      pc::future<int> r = x.second.then([e, a2](pc::future<Val> v) {
        act(*e, a2);
        return 1;
      });
      CHECK(r.get() == 1);
      break;
    }
    case 5: {
      auto all = pc::when_all(std::move(x.second));
      all = decltype(all)();
      break;
    }
    }
    CHECK(e->hits.peek() == (how == 4 ? 2 : 1), "(%ld)", e->hits.peek());
    CHECK(n.peek() == 1);
    complete(*e, H_VALUE);
    end(*e, H_VALUE);
  }
  delete e;
  NO_TRACKED_LEFT();
}
// a value whose destructor uses the promise it was given to, and a promise replaced by a destructor
SCENARIO(C23, value_and_promise) {
  init();
  {
    const int how = mc::choose(3), what = mc::choose(4);
    struct Self {
      pc::promise<std::shared_ptr<void>> p{pc::make_promise<std::shared_ptr<void>>().first};
      pc::future<std::shared_ptr<void>> f;
    };
    Self *s = new Self;
    auto x = pc::make_promise<std::shared_ptr<void>>();
    s->p = std::move(x.first);
    s->f = std::move(x.second);
    mc::ghost n;
    std::shared_ptr<void> v(nullptr, [s, what, how, n](void *) {
      n.bump();
      switch (what) {
      case 0:
        if (how == 0)
          CHECK(!s->p.is_awaiten(), "awaited although the value is being destroyed");
        s->p.is_awaiten();
        break;
      case 1: {
        const int o = outcome_of([&] {
          s->p.set_value(nullptr);
          return 0;
        });
        CHECK(o == SATISFIED || (o == 0 && !s->p.is_awaiten()), "(%d)", o);
        break;
      }
      case 2:
        s->p = pc::make_promise<std::shared_ptr<void>>().first;
        break;
      case 3: {
        auto y = pc::make_promise<std::shared_ptr<void>>();
        s->f = std::move(y.second);
        s->p = std::move(y.first);
        s->p.set_value(nullptr);
        CHECK(s->f.is_ready());
        break;
      }
      }
    });
    s->p.set_value(std::move(v));
    v = nullptr;
    CHECK(n.peek() == 0);
    if (how == 0)
      s->f = pc::future<std::shared_ptr<void>>();
    else if (how == 1)
      s->f.get();
    else {
      pc::future<void> r = s->f.next([](std::shared_ptr<void>) {});
      CHECK(r.is_ready());
    }
    CHECK(n.peek() == 1);
    delete s;
  }
  NO_TRACKED_LEFT();
}

// ---------------------------------------------------------------- executors
// user code inside post
struct rexec {
  Env *e;
  int a;
  int run; // run the task before or after acting, or drop it
};
static void post(rexec x, pc::unique_function<void()> f) {
  if (x.run == 0)
    f();
  act(*x.e, x.a);
  if (x.run == 1)
    f();
}
namespace portable_concurrency {
template <> struct is_executor<rexec> : std::true_type {};
} // namespace portable_concurrency
SCENARIO(C23, executor) {
  init();
  Env *e = new Env();
  {
    const int op = mc::choose(4), a1 = mc::choose(A_N), run = mc::choose(3), how = mc::choose(3), ready = mc::choose(2);
    e->s = e->f.share();
    mc::ghost n, m;
    e->s.notify([n] { n.bump(); });
    if (ready)
      complete(*e, how);
    rexec x{e, a1, run};
    switch (op) {
    case 0:
      e->s.notify(x, [m] { m.bump(); });
      break;
    case 1:
      e->r = e->s.then(x, [m](pc::shared_future<Tracked> f) {
        m.bump();
        return get_outcome(f);
      });
      break;
    case 2:
      e->r = e->s.next(x, [m](const Tracked &v) {
        m.bump();
        return v.get();
      });
      break;
    case 3:
      e->r = pc::async(x, [m] {
        m.bump();
        return 1;
      });
      break;
    }
    if (!ready)
      complete(*e, how);
    CHECK(e->hits.peek() == 1);
    // (with op 3 the callback may drop the result before it is there)
    CHECK(n.peek() == 1 || (op == 3 && !ready && a1 == A_DROP && n.peek() == 0), "(%ld)", n.peek());
    if (run == 0 && (op != 2 || how == H_VALUE))
      CHECK(m.peek() == 1);
    if (e->r.valid())
      CHECK(e->r.is_ready(), "the future is not ready although its task was run or dropped");
    end(*e, how);
  }
  delete e;
  NO_TRACKED_LEFT();
}
// combined futures
SCENARIO(C23, combined) {
  init();
  Env *e = new Env();
  {
    const int any = mc::choose(2), a1 = mc::choose(A_N), a2 = mc::choose(A_N), order = mc::choose(2), ready = mc::choose(2);
    e->s = e->f.share();
    auto fin = [&](auto c) {
      mc::ghost n;
      c.notify([e, a1] { act(*e, a1); });
      c.notify([n] { n.bump(); });
      auto t = c.then([e, a2](auto x) {
        act(*e, a2);
        x.get();
        return 1;
      });
      if (!ready) {
        if (order)
          complete(*e, H_VALUE);
        act(*e, A_COMPLETE_OTHER);
        if (!order)
          complete(*e, H_VALUE);
      }
      CHECK(t.is_ready() && get_outcome(t) == 1 - 1000);
      CHECK(n.peek() == 1);
    };
    if (ready) {
      complete(*e, H_VALUE);
      act(*e, A_COMPLETE_OTHER);
    }
    if (any)
      fin(pc::when_any(e->s, e->qs));
    else
      fin(pc::when_all(e->s, e->qs));
    end(*e, H_VALUE);
  }
  delete e;
  NO_TRACKED_LEFT();
}
