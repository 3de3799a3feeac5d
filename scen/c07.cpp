// C07: a producer that goes away breaks the promise instead of hanging the future.
#include "common.h"

// Owns one unfinished piece of work whose result is future f(); drop() makes the producer go away.
template <typename T> struct ret {
  static T go() { return kind<T>::make(1); }
};
template <> struct ret<void> {
  static void go() {}
};
enum { N_WAYS = 16 };
template <typename T> struct Work {
  int way;
  pc::promise<T> p{pc::make_promise<T>().first};
  pc::packaged_task<T()> t;
  pc::promise<int> up{pc::make_promise<int>().first};
  std::unique_ptr<Queue> q{new Queue};
  std::unique_ptr<pc::static_thread_pool> pool;
  pc::future<T> f;
  bool has_fn = false;  // a stored function with a captured Tracked exists
  bool dropped = false; // already gone when the constructor returns

  explicit Work(int w) : way(w) {
    auto fn = [cap = Tracked(5)]() -> T {
      mc::fail("function of a dropped producer invoked");
      return ret<T>::go();
    };
    auto cfn = [cap = Tracked(5)](pc::future<int>) -> T {
      mc::fail("function of a dropped continuation invoked");
      return ret<T>::go();
    };
    switch (way) {
    case 0:
    case 1:
    case 2: {
      auto x = pc::make_promise<T>();
      p = std::move(x.first);
      f = std::move(x.second);
      break;
    }
    case 3:
    case 4:
    case 5:
      t = pc::packaged_task<T()>(std::move(fn));
      f = t.get_future();
      has_fn = true;
      break;
    case 6:
      f = pc::async(qexec{q.get()}, std::move(fn));
      has_fn = true;
      break;
    case 7:
      f = pc::async(dropper{}, std::move(fn));
      dropped = true;
      break;
    case 8: { // continuation posted, then dropped by its executor
      auto x = pc::make_promise<int>();
      f = x.second.then(qexec{q.get()}, std::move(cfn));
      x.first.set_value(1);
      has_fn = true;
      break;
    }
    case 9: { // executor drops it on the spot when the parent completes
      auto x = pc::make_promise<int>();
      f = x.second.then(dropper{}, std::move(cfn));
      up = std::move(x.first);
      has_fn = true;
      break;
    }
    case 10: { // attached to a ready future with a dropping executor
      f = pc::make_ready_future(1).then(dropper{}, std::move(cfn));
      dropped = true;
      break;
    }
    case 11: { // interruptible continuation that forgets its promise
      auto x = pc::make_promise<int>();
      f = x.second.then([cap = Tracked(5)](pc::promise<T>, pc::future<int>) {});
      up = std::move(x.first);
      has_fn = true;
      break;
    }
    case 12: { // continuation whose parent is abandoned: its function is invoked and rethrows
      auto x = pc::make_promise<int>();
      f = x.second.then([cap = Tracked(5)](pc::future<int> v) -> T {
        v.get();
        return ret<T>::go();
      });
      up = std::move(x.first);
      has_fn = true;
      break;
    }
    case 13: { // next: broken promise propagates without invoking the function
      auto x = pc::make_promise<int>();
      f = x.second.next([cap = Tracked(5)](int) -> T {
        mc::fail("next-continuation of a broken promise invoked");
        return ret<T>::go();
      });
      up = std::move(x.first);
      has_fn = true;
      break;
    }
    case 14: { // task left in the queue of a pool without threads
      pool.reset(new pc::static_thread_pool(0));
      f = pc::async(pool->executor(), std::move(fn));
      has_fn = true;
      break;
    }
    case 15: { // next-continuation dropped by its executor
      auto x = pc::make_promise<int>();
      f = x.second.next(qexec{q.get()}, [cap = Tracked(5)](int) -> T {
        mc::fail("function of a dropped continuation invoked");
        return ret<T>::go();
      });
      x.first.set_value(1);
      has_fn = true;
      break;
    }
    }
  }
  void drop() {
    switch (way) {
    case 0: {
      pc::promise<T> gone(std::move(p));
      break;
    }
    case 1:
      p = pc::make_promise<T>().first;
      break;
    case 2: {
      pc::promise<T> a(std::move(p)), b(std::move(a));
      p = std::move(b);
      pc::promise<T> empty(std::move(b));
      p = std::move(empty);
      break;
    }
    case 3: {
      pc::packaged_task<T()> gone(std::move(t));
      break;
    }
    case 4:
      t = pc::packaged_task<T()>();
      break;
    case 5: {
      pc::packaged_task<T()> o([]() -> T { return ret<T>::go(); });
      o.swap(t);
      t = std::move(o), t = pc::packaged_task<T()>();
      break;
    }
    case 6:
    case 8:
    case 15:
      CHECK(q->q.size() == 1);
      q.reset();
      break;
    case 9:
    case 11:
      up.set_value(1);
      break;
    case 12:
    case 13: {
      pc::promise<int> gone(std::move(up));
      break;
    }
    case 14:
      pool.reset();
      break;
    }
  }
};

enum { N_CONS = 6 };
template <typename T> struct Watch {
  mc::ghost n;
  pc::future<int> g;
  pc::shared_future<T> s;
};
template <typename T> static void attach(Watch<T> &w, pc::future<T> &f, int cons) {
  switch (cons) {
  case 1:
    f.notify([n = w.n] { n.bump(); });
    break;
  case 2:
    w.g = f.then([n = w.n](pc::future<T> x) {
      n.bump();
      CHECK(x.is_ready());
      return get_outcome(x);
    });
    break;
  case 3:
    w.s = f.share();
    w.g = w.s.then([n = w.n](pc::shared_future<T> x) {
      n.bump();
      return get_outcome(x);
    });
    break;
  case 4:
    w.s = f.share();
    break;
  case 5:
    f.notify(inl{2}, [n = w.n] { n.bump(); });
    break;
  }
}
template <typename T> static void verify(Watch<T> &w, pc::future<T> &f, int cons) {
  switch (cons) {
  case 0:
  case 1:
  case 5:
    CHECK(get_outcome(f) == BROKEN);
    break;
  case 2:
    CHECK(w.g.get() == BROKEN);
    break;
  case 3:
    CHECK(w.g.get() == BROKEN && get_outcome(w.s) == BROKEN);
    break;
  case 4:
    w.s.wait();
    CHECK(get_outcome(w.s) == BROKEN && get_outcome(w.s) == BROKEN);
    break;
  }
  if (cons == 1 || cons == 2 || cons == 3 || cons == 5)
    CHECK(w.n.peek() == 1, "(%ld)", w.n.peek());
}
template <typename T> static void sequential() {
  init();
  {
    const int way = mc::choose(N_WAYS), cons = mc::choose(N_CONS);
    const bool after = mc::choose(2);
    Work<T> w(way);
    Watch<T> x;
    pc::future<T> f = std::move(w.f);
    if (!w.dropped)
      CHECK(!f.is_ready());
    if (!after)
      attach(x, f, cons);
    if (!w.dropped)
      w.drop();
    CHECK(live_tracked() == 0, "the stored function was kept (%ld objects)", live_tracked());
    if (after)
      attach(x, f, cons);
    if (f.valid())
      CHECK(f.is_ready(), "the future of a dropped producer is not ready");
    verify(x, f, cons);
  }
  NO_TRACKED_LEFT();
}
SCENARIO(C07, seq_int) { sequential<int>(); }
SCENARIO(C07, seq_void) { sequential<void>(); }
SCENARIO(C07, seq_ref) { sequential<int &>(); }
SCENARIO(C07, seq_uptr) { sequential<uptr>(); }

// the producer goes away while the consumer waits or attaches
template <typename T> static void concurrent(int lo, int hi) {
  init();
  {
    const int way = lo + mc::choose(hi - lo), cons = mc::choose(N_CONS);
    Work<T> w(way);
    if (w.dropped)
      mc::discard();
    Watch<T> x;
    pc::future<T> f = std::move(w.f);
    thr t([&w] { w.drop(); });
    attach(x, f, cons);
    if (cons == 1 || cons == 5) {
      CHECK(get_outcome(f) == BROKEN);
      t.join();
      CHECK(x.n.peek() == 1);
      t = thr();
    } else
      verify(x, f, cons);
  }
  NO_TRACKED_LEFT();
}
SCENARIO(C07, conc_promise, o.preempt = 3; o.preempt_max = -1) { concurrent<int>(0, 3); }
SCENARIO(C07, conc_task, o.preempt = 3; o.preempt_max = -1) { concurrent<int>(3, 6); }
SCENARIO(C07, conc_posted, o.preempt = 2; o.preempt_max = -1) { concurrent<void>(6, 10); }
SCENARIO(C07, conc_cont, o.preempt = 2; o.preempt_max = -1) { concurrent<int>(11, 16); }

// two waiters on a promise that goes away
SCENARIO(C07, two_waiters, o.preempt = 3; o.preempt_max = -1; o.env = 1) {
  init();
  auto x = pc::make_promise<int>();
  pc::shared_future<int> s = x.second.share();
  thr w([s] { CHECK(get_outcome(s) == BROKEN); });
  thr t([p = std::move(x.first)]() mutable { pc::promise<int> gone(std::move(p)); });
  s.wait();
  CHECK(get_outcome(s) == BROKEN);
}
// a pool is destroyed while its worker may or may not have taken the task
SCENARIO(C07, pool_destroyed, o.preempt = 2; o.preempt_max = -1) {
  init();
  {
    pc::future<int> f, g, h;
    mc::ghost r;
    {
      pc::static_thread_pool pool(1);
      f = pc::async(pool.executor(), [r, t = Tracked(1)] {
        r.bump();
        return 1;
      });
      g = pc::async(pool.executor(), [r, t = Tracked(1)] {
        r.bump();
        return 2;
      });
      h = f.next(pool.executor(), [r, t = Tracked(1)](int v) {
        r.bump();
        return v + 2;
      });
    }
    CHECK(g.is_ready() && h.is_ready());
    int go = outcome_of([&] { return g.get(); }), ho = outcome_of([&] { return h.get(); });
    CHECK(go == 2 || go == BROKEN);
    CHECK(ho == 3 || ho == BROKEN);
    mc::outcome("g=%d h=%d", go, ho);
    CHECK(live_tracked() == 0);
  }
}
// histories over two promises: set, replace, move, drop
SCENARIO(C07, history_promise) {
  init();
  {
    const int len = mc::thorough() ? 6 : 5;
    std::unique_ptr<pc::promise<int>> p[2];
    pc::future<int> f[2];
    int holds[2] = {0, 1};
    int state[2] = {-1, -1}; // -1 pending, else value; -2 broken
    for (int i = 0; i < 2; i++) {
      auto x = pc::make_promise<int>();
      p[i].reset(new pc::promise<int>(std::move(x.first)));
      f[i] = std::move(x.second);
    }
    auto abandon = [&](int v) {
      if (holds[v] >= 0 && state[holds[v]] == -1)
        state[holds[v]] = -2;
      holds[v] = -1;
    };
    for (int k = 0; k < len; k++) {
      const int op = mc::choose(8), v = op & 1, o = 1 - v;
      switch (op >> 1) {
      case 0: { // set
        const int r = outcome_of([&] {
          p[v]->set_value(10 + k);
          return 0;
        });
        if (holds[v] < 0)
          CHECK(r == NO_STATE, "(%d)", r);
        else if (state[holds[v]] != -1)
          CHECK(r == SATISFIED, "(%d)", r);
        else {
          CHECK(r == 0);
          state[holds[v]] = 10 + k;
        }
        break;
      }
      case 1: // move assignment from the other one
        *p[v] = std::move(*p[o]);
        abandon(v);
        holds[v] = holds[o];
        holds[o] = -1;
        break;
      case 2: // destroyed and replaced by a moved-from object
      {
        pc::promise<int> tmp = std::move(*p[v]);
        p[v].reset();
        p[v].reset(new pc::promise<int>(std::move(tmp)));
        break;
      }
      case 3: {
        pc::promise<int> gone(std::move(*p[v]));
        abandon(v);
        break;
      }
      }
      for (int i = 0; i < 2; i++)
        CHECK(f[i].is_ready() == (state[i] != -1 || (holds[0] != i && holds[1] != i)), "after %d operations", k + 1);
    }
    p[0].reset();
    p[1].reset();
    for (int i = 0; i < 2; i++) {
      CHECK(f[i].is_ready());
      const int r = outcome_of([&] { return f[i].get(); });
      CHECK(r == (state[i] < 0 ? BROKEN : state[i]), "(%d)", r);
    }
  }
}
SCENARIO(C07, history_task) {
  init();
  {
    const int len = mc::thorough() ? 6 : 5;
    std::unique_ptr<pc::packaged_task<int()>> p[2];
    pc::future<int> f[2];
    int holds[2] = {0, 1}, state[2] = {-1, -1};
    mc::ghost runs[2];
    for (int i = 0; i < 2; i++) {
      p[i].reset(new pc::packaged_task<int()>([i, r = runs[i], cap = Tracked(3)] {
        r.bump();
        return 20 + i + cap.get();
      }));
      f[i] = p[i]->get_future();
    }
    auto abandon = [&](int v) {
      if (holds[v] >= 0 && state[holds[v]] == -1)
        state[holds[v]] = -2;
      holds[v] = -1;
    };
    for (int k = 0; k < len; k++) {
      const int op = mc::choose(9), v = op & 1, o = 1 - v;
      switch (op >> 1) {
      case 0: {
        const int r = outcome_of([&] {
          (*p[v])();
          return 0;
        });
        if (holds[v] < 0)
          CHECK(r == NO_STATE, "(%d)", r);
        else if (state[holds[v]] != -1)
          CHECK(r == SATISFIED, "(%d)", r);
        else {
          CHECK(r == 0);
          state[holds[v]] = 23 + holds[v];
        }
        break;
      }
      case 1:
        *p[v] = std::move(*p[o]);
        abandon(v);
        holds[v] = holds[o];
        holds[o] = -1;
        break;
      case 2: {
        pc::packaged_task<int()> tmp = std::move(*p[v]);
        p[v].reset();
        p[v].reset(new pc::packaged_task<int()>(std::move(tmp)));
        break;
      }
      case 3: {
        pc::packaged_task<int()> gone(std::move(*p[v]));
        abandon(v);
        break;
      }
      case 4:
        p[0]->swap(*p[1]);
        std::swap(holds[0], holds[1]);
        break;
      }
      for (int i = 0; i < 2; i++) {
        CHECK(f[i].is_ready() == (state[i] != -1), "after %d operations", k + 1);
        CHECK(runs[i].peek() == (state[i] >= 0 ? 1 : 0));
        CHECK(p[i]->valid() == (holds[i] >= 0));
      }
      CHECK(live_tracked() == (state[0] == -1) + (state[1] == -1), "captured objects: %ld", live_tracked());
    }
    p[0].reset();
    p[1].reset();
    for (int i = 0; i < 2; i++) {
      const int r = outcome_of([&] { return f[i].get(); });
      CHECK(r == (state[i] < 0 ? BROKEN : state[i]), "(%d)", r);
    }
  }
  NO_TRACKED_LEFT();
}
// destroying a satisfied producer, or a moved-from one, changes nothing - also while readers are active
SCENARIO(C07, after_result, o.preempt = 3; o.preempt_max = -1) {
  init();
  {
    const int way = mc::choose(4);
    auto x = pc::make_promise<Tracked>();
    pc::shared_future<Tracked> s = x.second.share();
    thr t([p = std::move(x.first), way]() mutable {
      if (way == 0) {
        p.set_value(Tracked(1));
      } else if (way == 1) {
        pc::promise<Tracked> q(std::move(p));
        { pc::promise<Tracked> gone(std::move(p)); }
        q.set_value(Tracked(1));
        q = pc::make_promise<Tracked>().first;
      } else if (way == 2) {
        p.set_value(Tracked(1));
        p = pc::make_promise<Tracked>().first;
      } else {
        pc::promise<Tracked> q(std::move(p));
        p = pc::make_promise<Tracked>().first;
        q.set_value(Tracked(1));
      }
    });
    CHECK(get_outcome(s) == 1);
    CHECK(get_outcome(s) == 1);
  }
  NO_TRACKED_LEFT();
}
// allocator and cancel-action flavours, and futures retrieved late
SCENARIO(C07, flavours) {
  init();
  Arena *a = make_arena(0);
  {
    const int fl = mc::choose(5);
    pc::future<int> f;
    mc::ghost cancelled;
    switch (fl) {
    case 0: {
      auto x = pc::make_promise<int>(arena_alloc<int>(a));
      f = std::move(x.second);
      break;
    }
    case 1: {
      auto x = pc::make_promise<int>(pc::canceler_arg, [cancelled] { cancelled.bump(); });
      f = std::move(x.second);
      break;
    }
    case 2: {
      pc::promise<int> p;
      f = p.get_future();
      break;
    }
    case 3: {
      pc::promise<int> p(std::allocator_arg, arena_alloc<int>(a));
      f = p.get_future();
      break;
    }
    case 4: {
      pc::promise<int> p(pc::canceler_arg, [cancelled] { cancelled.bump(); });
      f = p.get_future();
      break;
    }
    }
    CHECK(f.is_ready());
    CHECK(get_outcome(f) == BROKEN);
    CHECK(cancelled.peek() == 0);
  }
  CHECK(a->blocks == 0);
}
