// C19: misuse is reported by the documented error and changes nothing.
// Every sequence of operations - legal or not - on two promises, two futures and two shared_futures, and on
// packaged tasks, against a model of the documented states.
#include "common.h"

enum { NONE = 1 << 20 };

template <typename T> struct value_arg { // hands the i-th value over as rvalue and can tell whether it was taken
  static bool set_rejected_keeps(pc::promise<T> &p, int i, int *out) {
    *out = outcome_of([&] {
      set_id<T>(p, i);
      return 0;
    });
    return true;
  }
};
template <> struct value_arg<Tracked> {
  static bool set_rejected_keeps(pc::promise<Tracked> &p, int i, int *out) {
    Tracked v(i);
    *out = outcome_of([&] {
      p.set_value(std::move(v));
      return 0;
    });
    return !v.moved_from();
  }
};
template <> struct value_arg<uptr> {
  static bool set_rejected_keeps(pc::promise<uptr> &p, int i, int *out) {
    uptr v(new int(i));
    *out = outcome_of([&] {
      p.set_value(std::move(v));
      return 0;
    });
    return v != nullptr;
  }
};

template <typename T> struct Machine {
  struct St {
    int res = NONE;
    bool detached = false;
    int notes = 0; // notifications attached while pending
    bool dead = false;
  };
  St st[16];
  int nst = 0;
  std::vector<pc::promise<T>> p; // two
  int pm[2] = {-1, -1};          // state of the promise, -1: none
  bool pr[2] = {false, false};   // future retrieved
  pc::future<T> f[2];
  int fm[2] = {-1, -1};
  pc::shared_future<T> s[2];
  int sm[2] = {-1, -1};
  mc::ghost notified;
  long want_notified = 0;
  Arena *arena = make_arena(0);
  Queue q;

  bool held(int i) const {
    if (st[i].detached)
      return true;
    for (int k = 0; k < 2; k++)
      if (fm[k] == i || sm[k] == i || (pm[k] == i && !pr[k]))
        return true;
    return false;
  }
  void settle() {
    for (int i = 0; i < nst; i++)
      if (!st[i].dead && !held(i))
        st[i].dead = true;
  }
  void supply(int i, int r) {
    if (st[i].dead)
      return;
    st[i].res = r;
    want_notified += st[i].notes;
    st[i].notes = 0;
    st[i].detached = false;
  }
  void abandon(int k) { // promise object k goes away or is overwritten
    if (pm[k] >= 0 && pr[k] && !st[pm[k]].dead && st[pm[k]].res == NONE)
      supply(pm[k], BROKEN);
    pm[k] = -1;
    pr[k] = false;
  }
  void fresh_promise(int k, int how) {
    abandon(k);
    settle();
    if (how == 0) {
      p[k] = pc::promise<T>();
      pm[k] = nst;
      pr[k] = false;
    } else if (how == 1) {
      auto x = pc::make_promise<T>();
      p[k] = std::move(x.first);
      drop_f(k);
      f[k] = std::move(x.second);
      pm[k] = fm[k] = nst;
      pr[k] = true;
    } else {
      p[k] = pc::promise<T>(std::allocator_arg, arena_alloc<char>(arena));
      pm[k] = nst;
      pr[k] = false;
    }
    st[nst++] = St();
  }
  void drop_f(int k) { fm[k] = -1; }

  explicit Machine(int cfg) {
    for (int k = 0; k < 2; k++) {
      auto x = pc::make_promise<T>();
      p.push_back(std::move(x.first));
      pc::promise<T> away(std::move(p[k])); // start empty
    }
    switch (cfg) {
    case 0:
      fresh_promise(0, 0);
      break;
    case 1:
      fresh_promise(0, 1);
      break;
    case 2:
      fresh_promise(0, 1);
      fresh_promise(1, 2);
      break;
    case 3:
      fresh_promise(0, 1);
      set_id<T>(p[0], 1);
      supply(0, vid<T>(1));
      break;
    case 4:
      fresh_promise(0, 1);
      s[0] = f[0].share();
      sm[0] = fm[0];
      fm[0] = -1;
      break;
    case 5:
      fresh_promise(0, 0);
      p[0].set_exception(err(5));
      supply(0, EXC - 5);
      break;
    }
    check("start");
  }
  void check(const char *after) {
    settle();
    for (int k = 0; k < 2; k++) {
      CHECK(f[k].valid() == (fm[k] >= 0), "after %s: future %d valid %d", after, k, (int)f[k].valid());
      CHECK(s[k].valid() == (sm[k] >= 0), "after %s: shared_future %d valid %d", after, k, (int)s[k].valid());
      if (fm[k] >= 0)
        CHECK(f[k].is_ready() == (st[fm[k]].res != NONE), "after %s: future %d ready %d", after, k, (int)f[k].is_ready());
      if (sm[k] >= 0) {
        CHECK(s[k].is_ready() == (st[sm[k]].res != NONE), "after %s: shared_future %d", after, k);
        if (st[sm[k]].res != NONE)
          CHECK(get_outcome(s[k]) == st[sm[k]].res, "after %s: the result changed", after);
      }
      int a = outcome_of([&] { return (int)p[k].is_awaiten(); });
      int want = pm[k] < 0 ? NO_STATE : (!pr[k] || held(pm[k]));
      CHECK(a == want, "after %s: is_awaiten of promise %d is %d, expected %d", after, k, a, want);
    }
    CHECK(notified.peek() == want_notified, "after %s: %ld notifications, expected %ld", after, notified.peek(), want_notified);
  }
  // outcome expected of supplying a result through promise k
  int want_supply(int k) {
    if (pm[k] < 0)
      return NO_STATE;
    if (st[pm[k]].dead)
      return 0;
    return st[pm[k]].res == NONE ? 0 : SATISFIED;
  }
  int turn = 0; // picks among overloads that must not differ
  void op(int o) {
    turn++;
    char name[40];
    snprintf(name, sizeof name, "operation %d", o);
    int k = o & 1;
    switch (o >> 1) {
    case 0: { // set_value
      int want = want_supply(k), got;
      bool rejected = want != 0 || st[pm[k]].dead;
      if (want == 0 && !rejected)
        supply(pm[k], vid<T>(2));
      bool kept = value_arg<T>::set_rejected_keeps(p[k], 2, &got);
      CHECK(got == want, "set_value on promise %d: %d, expected %d", k, got, want);
      if (rejected && want != 0)
        CHECK(kept, "a rejected value was moved from");
      break;
    }
    case 1: { // set_exception
      int want = want_supply(k);
      if (want == 0)
        supply(pm[k], EXC - 3);
      int got = outcome_of([&] {
        p[k].set_exception(err(3));
        return 0;
      });
      CHECK(got == want, "set_exception on promise %d: %d, expected %d", k, got, want);
      break;
    }
    case 2: { // get_future into slot k
      int want = pm[k] < 0 ? NO_STATE : pr[k] ? RETRIEVED : 0;
      int got = outcome_of([&] {
        pc::future<T> x = p[k].get_future();
        CHECK(x.valid());
        f[k] = std::move(x);
        return 0;
      });
      CHECK(got == want, "get_future on promise %d: %d, expected %d", k, got, want);
      if (want == 0) {
        pr[k] = true;
        fm[k] = pm[k];
      }
      break;
    }
    case 3: { // move assignment from the other promise
      p[k] = std::move(p[1 - k]);
      abandon(k);
      pm[k] = pm[1 - k];
      pr[k] = pr[1 - k];
      pm[1 - k] = -1;
      pr[1 - k] = false;
      break;
    }
    case 4: { // move construction and destruction
      { pc::promise<T> gone(std::move(p[k])); }
      abandon(k);
      break;
    }
    case 5: { // get
      int want = fm[k] < 0 ? NO_STATE : st[fm[k]].res;
      if (want == NONE)
        mc::discard(); // would block
      int got = get_outcome(f[k]);
      CHECK(got == want, "get on future %d: %d, expected %d", k, got, want);
      fm[k] = -1;
      break;
    }
    case 6: { // share
      s[k] = f[k].share();
      sm[k] = fm[k];
      fm[k] = -1;
      break;
    }
    case 7: { // then
      mc::ghost ran, saw;
      {
        auto cap = std::make_unique<Tracked>(7);
        auto fn = [ran, saw, c = std::move(cap)](pc::future<T> x) {
          CHECK(c->get() == 7);
          ran.bump();
          saw.poke(get_outcome(x));
        };
        auto inter = [ran, saw](pc::promise<int> pr, pc::future<T> x) {
          ran.bump();
          saw.poke(get_outcome(x));
          pr.set_value(1);
        };
        const int ex = mc::choose(4);
        int got = outcome_of([&] {
          if (ex < 2) {
            pc::future<void> g = ex ? f[k].then(inl{1}, std::move(fn)) : f[k].then(std::move(fn));
            CHECK(g.valid());
          } else {
            pc::future<int> g = ex & 1 ? f[k].then(inl{1}, inter) : f[k].then(inter);
            CHECK(g.valid());
          }
          return 0;
        });
        CHECK(got == (fm[k] < 0 ? NO_STATE : 0), "then on future %d: %d", k, got);
      }
      bool ready = fm[k] >= 0 && st[fm[k]].res != NONE;
      CHECK(ran.peek() == ready, "continuation ran %ld times", ran.peek());
      if (ready)
        CHECK(saw.peek() == st[fm[k]].res);
      fm[k] = -1;
      break;
    }
    case 8: { // next
      mc::ghost ran;
      int got = outcome_of([&] {
        pc::future<void> g = next_of(f[k], ran);
        return 0;
      });
      CHECK(got == (fm[k] < 0 ? NO_STATE : 0), "next on future %d: %d", k, got);
      CHECK(ran.peek() == (fm[k] >= 0 && st[fm[k]].res != NONE && st[fm[k]].res >= 0));
      fm[k] = -1;
      break;
    }
    case 9: { // detach
      int got = outcome_of([&] {
        pc::future<T> x = f[k].detach();
        CHECK(!f[k].valid() && x.valid());
        f[k] = std::move(x);
        return 0;
      });
      CHECK(got == (fm[k] < 0 ? NO_STATE : 0), "detach on future %d: %d", k, got);
      if (fm[k] >= 0 && st[fm[k]].res == NONE)
        st[fm[k]].detached = true;
      break;
    }
    case 10: { // notify
      int got = outcome_of([&] {
        if (turn & 1)
          f[k].notify(inl{2}, [n = notified] { n.bump(); });
        else
          f[k].notify([n = notified] { n.bump(); });
        return 0;
      });
      CHECK(got == (fm[k] < 0 ? NO_STATE : 0), "notify on future %d: %d", k, got);
      if (fm[k] >= 0) {
        if (st[fm[k]].res != NONE)
          want_notified++;
        else
          st[fm[k]].notes++;
      }
      break;
    }
    case 11: { // move assignment of futures
      f[k] = std::move(f[1 - k]);
      fm[k] = fm[1 - k];
      fm[1 - k] = -1;
      break;
    }
    case 12: // drop
      f[k] = pc::future<T>();
      fm[k] = -1;
      break;
    case 13: { // queries on a future that has no state, waits on a ready one
      if (fm[k] >= 0 && st[fm[k]].res == NONE)
        mc::discard();
      int want = fm[k] < 0 ? NO_STATE : 1;
      int g1 = outcome_of([&] { return (int)f[k].is_ready(); });
      int g2 = outcome_of([&] {
        f[k].wait();
        return 1;
      });
      int g3 = outcome_of([&] { return (int)(f[k].wait_for(std::chrono::seconds(1)) == pc::future_status::ready); });
      int g4 = outcome_of([&] { return (int)(f[k].wait_until(std::chrono::system_clock::now()) == pc::future_status::ready); });
      CHECK(g1 == want && g2 == want && g3 == want && g4 == want, "queries on future %d: %d %d %d %d, expected %d", k, g1, g2, g3, g4, want);
      break;
    }
    case 14: { // shared: copy, read, attach
      if (sm[k] >= 0 && st[sm[k]].res == NONE)
        mc::discard();
      int want = sm[k] < 0 ? NO_STATE : st[sm[k]].res;
      CHECK(get_outcome(s[k]) == want, "get on shared_future %d", k);
      CHECK(get_outcome(s[k]) == want, "second get on shared_future %d", k);
      int w2 = sm[k] < 0 ? NO_STATE : 1;
      int g1 = outcome_of([&] { return (int)s[k].is_ready(); });
      int g2 = outcome_of([&] {
        s[k].wait();
        return 1;
      });
      int g3 = outcome_of([&] { return (int)(s[k].wait_for(std::chrono::seconds(1)) == pc::future_status::ready); });
      CHECK(g1 == w2 && g2 == w2 && g3 == w2, "queries on shared_future %d: %d %d %d", k, g1, g2, g3);
      break;
    }
    case 15: { // shared then: valid stays valid
      mc::ghost ran;
      int got = outcome_of([&] {
        auto fn = [ran](pc::shared_future<T>) { ran.bump(); };
        pc::future<void> g = turn & 1 ? s[k].then(fn) : s[k].then(inl{1}, fn);
        CHECK(g.valid());
        return 0;
      });
      CHECK(got == (sm[k] < 0 ? NO_STATE : 0), "then on shared_future %d: %d", k, got);
      CHECK(ran.peek() == (sm[k] >= 0 && st[sm[k]].res != NONE));
      break;
    }
    case 16: { // shared detach
      int got = outcome_of([&] {
        pc::shared_future<T> x = s[k].detach();
        CHECK(!s[k].valid() && x.valid());
        s[k] = std::move(x);
        return 0;
      });
      CHECK(got == (sm[k] < 0 ? NO_STATE : 0), "detach on shared_future %d: %d", k, got);
      if (sm[k] >= 0 && st[sm[k]].res == NONE)
        st[sm[k]].detached = true;
      break;
    }
    case 17: // shared copy assignment
      s[k] = s[1 - k];
      sm[k] = sm[1 - k];
      break;
    case 18: // shared move assignment
      s[k] = std::move(s[1 - k]);
      sm[k] = sm[1 - k];
      sm[1 - k] = -1;
      break;
    case 19: // shared drop
      s[k] = pc::shared_future<T>();
      sm[k] = -1;
      break;
    case 20: { // shared notify
      int got = outcome_of([&] {
        if (turn & 1)
          s[k].notify([n = notified] { n.bump(); });
        else
          s[k].notify(inl{2}, [n = notified] { n.bump(); });
        return 0;
      });
      CHECK(got == (sm[k] < 0 ? NO_STATE : 0), "notify on shared_future %d: %d", k, got);
      if (sm[k] >= 0) {
        if (st[sm[k]].res != NONE)
          want_notified++;
        else
          st[sm[k]].notes++;
      }
      break;
    }
    case 21: { // interruptible then on the shared future
      mc::ghost ran;
      int got = outcome_of([&] {
        pc::future<int> g = s[k].then([ran](pc::promise<int> pr, pc::shared_future<T>) { ran.bump(); });
        return 0;
      });
      CHECK(got == (sm[k] < 0 ? NO_STATE : 0), "interruptible then on shared_future %d: %d", k, got);
      CHECK(ran.peek() == (sm[k] >= 0 && st[sm[k]].res != NONE));
      if (sm[k] >= 0 && !s[k].valid())
        sm[k] = -1; // whether the handle stays valid is not documented
      break;
    }
    }
    check(name);
  }
  static constexpr int N = 44;
  template <typename U> static pc::future<void> next_of(pc::future<U> &x, mc::ghost ran) {
    return x.next([ran](const U &) { ran.bump(); });
  }
  template <typename U> static pc::future<void> next_of(pc::future<U &> &x, mc::ghost ran) {
    return x.next([ran](U &) { ran.bump(); });
  }
  static pc::future<void> next_of(pc::future<void> &x, mc::ghost ran) {
    return x.next([ran] { ran.bump(); });
  }
};
template <typename T> static void sequence(int cfg, int len) {
  init();
  {
    Machine<T> m(cfg);
    for (int i = 0; i < len; i++)
      m.op(mc::choose(Machine<T>::N));
  }
  NO_TRACKED_LEFT();
}
#define SEQ(T, n, quick, deep)                                                                                         \
  SCENARIO(C19, n##_ctor) { sequence<T>(0, mc::thorough() ? deep : quick); }                                           \
  SCENARIO(C19, n##_pair) { sequence<T>(1, mc::thorough() ? deep : quick); }                                           \
  SCENARIO(C19, n##_two) { sequence<T>(2, mc::thorough() ? deep : quick); }                                            \
  SCENARIO(C19, n##_ready) { sequence<T>(3, mc::thorough() ? deep : quick); }                                          \
  SCENARIO(C19, n##_shared) { sequence<T>(4, mc::thorough() ? deep : quick); }                                         \
  SCENARIO(C19, n##_failed) { sequence<T>(5, mc::thorough() ? deep : quick); }
SEQ(int, int, 3, 4)
SEQ(void, void, 3, 3)
SEQ(int &, ref, 3, 3)
SEQ(Tracked, tracked, 3, 4)
SEQ(uptr, uptr, 3, 3)

// ---------------------------------------------------------------- packaged tasks
template <typename R> struct Body {
  mc::ghost runs;
  int mode;
  Tracked cap;
  R operator()(int v) {
    CHECK(cap.get() == 3);
    runs.bump();
    if (mode == 1)
      throw test_error{4};
    return kind<R>::make(v);
  }
};
template <typename R> static void tasks(int len) {
  init();
  {
    using Task = pc::packaged_task<R(int)>;
    Task t[2];
    pc::future<R> f[2];
    struct M {
      int st = -1;
      bool retrieved = false;
    } m[2];
    int fm[2] = {-1, -1};
    struct S {
      int res = NONE;
      bool called = false;
      int mode = 0;
      mc::ghost runs;
      bool dead = false;
    } st[12];
    int n = 0;
    auto held = [&](int i) {
      for (int k = 0; k < 2; k++)
        if (fm[k] == i || (m[k].st == i && !m[k].retrieved))
          return true;
      return false;
    };
    auto gone = [&](int k) {
      if (m[k].st >= 0 && st[m[k].st].res == NONE && held(m[k].st) && m[k].retrieved)
        st[m[k].st].res = BROKEN;
      m[k] = M();
    };
    for (int step = 0; step < len; step++) {
      const int o = mc::choose(18), k = o & 1;
      switch (o >> 1) {
      case 0: { // new task
        const int mode = mc::choose(2);
        st[n].mode = mode;
        t[k] = Task(Body<R>{st[n].runs, mode, Tracked(3)});
        gone(k);
        m[k].st = n++;
        break;
      }
      case 1: { // get_future
        int want = m[k].st < 0 ? NO_STATE : m[k].retrieved ? RETRIEVED : 0;
        int got = outcome_of([&] {
          pc::future<R> x = t[k].get_future();
          CHECK(x.valid());
          f[k] = std::move(x);
          return 0;
        });
        CHECK(got == want, "get_future: %d, expected %d", got, want);
        if (want == 0) {
          m[k].retrieved = true;
          fm[k] = m[k].st;
        }
        break;
      }
      case 2: { // call
        int i = m[k].st;
        bool alive = i >= 0 && held(i);
        int want = i < 0 ? NO_STATE : !alive ? 0 : st[i].called ? SATISFIED : 0;
        long before = i >= 0 ? st[i].runs.peek() : 0;
        int got = outcome_of([&] {
          t[k](2);
          return 0;
        });
        CHECK(got == want, "call: %d, expected %d", got, want);
        if (i >= 0) {
          long ran = st[i].runs.peek() - before;
          CHECK(ran == (want == 0 && alive), "the function ran %ld times", ran);
          if (want == 0 && alive) {
            st[i].called = true;
            st[i].res = st[i].mode ? EXC - 4 : vid<R>(2);
          }
        }
        break;
      }
      case 3: // move assignment
        t[k] = std::move(t[1 - k]);
        gone(k);
        m[k] = m[1 - k];
        m[1 - k] = M();
        break;
      case 4: // swap
        t[k].swap(t[1 - k]);
        std::swap(m[0], m[1]);
        break;
      case 5: // move construction, destruction
      {
        Task x(std::move(t[k]));
        CHECK(!t[k].valid());
        CHECK(x.valid() == (m[k].st >= 0));
      }
        gone(k);
        break;
      case 6: { // get
        if (fm[k] >= 0 && st[fm[k]].res == NONE)
          mc::discard();
        int want = fm[k] < 0 ? NO_STATE : st[fm[k]].res;
        int got = get_outcome(f[k]);
        CHECK(got == want, "get: %d, expected %d", got, want);
        fm[k] = -1;
        break;
      }
      case 7: // drop the future
        f[k] = pc::future<R>();
        fm[k] = -1;
        break;
      case 8: // move the future over
        f[k] = std::move(f[1 - k]);
        fm[k] = fm[1 - k];
        fm[1 - k] = -1;
        break;
      }
      for (int j = 0; j < 2; j++) {
        CHECK(t[j].valid() == (m[j].st >= 0), "task %d valid %d", j, (int)t[j].valid());
        CHECK(f[j].valid() == (fm[j] >= 0));
        if (fm[j] >= 0)
          CHECK(f[j].is_ready() == (st[fm[j]].res != NONE), "future %d ready %d", j, (int)f[j].is_ready());
      }
      for (int i = 0; i < n; i++)
        CHECK(st[i].runs.peek() == st[i].called, "function %d ran %ld times", i, st[i].runs.peek());
    }
  }
  NO_TRACKED_LEFT();
}
SCENARIO(C19, task_int) { tasks<int>(mc::thorough() ? 6 : 4); }
SCENARIO(C19, task_void) { tasks<void>(mc::thorough() ? 5 : 4); }
SCENARIO(C19, task_ref) { tasks<int &>(mc::thorough() ? 5 : 4); }
SCENARIO(C19, task_tracked) { tasks<Tracked>(mc::thorough() ? 5 : 4); }

// tasks returning futures: a second call is rejected although the outer future is not ready yet
SCENARIO(C19, task_unwrap) {
  init();
  const int fin = mc::choose(3), again = mc::choose(3), kind_ = mc::choose(2);
  auto in = pc::make_promise<int>();
  mc::ghost runs;
  auto finish = [&] {
    if (fin == 0)
      in.first.set_value(1);
    else if (fin == 1)
      in.first.set_exception(err(1));
    else
      pc::promise<int> gone(std::move(in.first));
  };
  auto test = [&](auto &t, auto f) {
    if (again == 0)
      finish();
    t();
    CHECK(f.is_ready() == (again == 0));
    int got = outcome_of([&] {
      t();
      return 0;
    });
    CHECK(got == SATISFIED, "(%d)", got);
    CHECK(runs.peek() == 1);
    CHECK(f.is_ready() == (again == 0), "a rejected call changed the future");
    if (again == 1)
      finish();
    if (again == 2) {
      auto x = std::move(t); // the task is gone, the inner future decides
      finish();
    }
    CHECK(outcome_of([&] { return t.get_future(), 0; }) == (again == 2 ? NO_STATE : RETRIEVED));
    int r = outcome_of([&] { return f.get(); });
    CHECK(r == (fin == 0 ? 1 : fin == 1 ? EXC - 1 : BROKEN), "(%d)", r);
  };
  if (kind_ == 0) {
    pc::packaged_task<pc::future<int>()> t([i = std::move(in.second), runs]() mutable {
      runs.bump();
      return std::move(i);
    });
    auto f = t.get_future();
    test(t, std::move(f));
  } else {
    pc::packaged_task<pc::shared_future<int>()> t([i = in.second.share(), runs]() mutable {
      runs.bump();
      return i;
    });
    auto f = t.get_future();
    test(t, std::move(f));
  }
}

// ---------------------------------------------------------------- concurrently
// two threads with a copy each of a shared_future, a third supplies twice: the first result stays
SCENARIO(C19, twice_racing, o.preempt = 3; o.preempt_max = -1) {
  init();
  {
    const int first = mc::choose(2), second = mc::choose(2);
    auto x = pc::make_promise<Tracked>();
    pc::shared_future<Tracked> s = x.second.share();
    auto sup = [](pc::promise<Tracked> &p, int how, int i) {
      return outcome_of([&] {
        if (how == 0)
          p.set_value(Tracked(i));
        else
          p.set_exception(err(i));
        return 0;
      });
    };
    thr t([p = std::move(x.first), sup, first, second]() mutable {
      CHECK(sup(p, first, 1) == 0);
      CHECK(sup(p, second, 2) == SATISFIED);
    });
    const int want = first == 0 ? 1 : EXC - 1;
    thr u([s, want] {
      CHECK(get_outcome(s) == want);
      CHECK(get_outcome(s) == want, "the result changed");
    });
    CHECK(get_outcome(s) == want);
    CHECK(get_outcome(s) == want, "the result changed");
  }
  NO_TRACKED_LEFT();
}
// a task called in one thread and moved-from handle used in another: only the owner runs the function
SCENARIO(C19, task_handover, o.preempt = -1) {
  init();
  {
    mc::ghost runs;
    pc::packaged_task<int()> t([runs, c = Tracked(1)] {
      runs.bump();
      return c.get();
    });
    auto f = t.get_future();
    {
      thr th([u = std::move(t)]() mutable {
        u();
        const int again = outcome_of([&] {
          u();
          return 0;
        });
        CHECK(again == SATISFIED || again == 0, "(%d)", again); // 0: nobody awaits any more
      });
      CHECK(!t.valid());
      CHECK(outcome_of([&] {
              t();
              return 0;
            }) == NO_STATE);
      CHECK(f.get() == 1);
      CHECK(outcome_of([&] { return f.get(); }) == NO_STATE);
    }
    CHECK(runs.peek() == 1);
  }
  NO_TRACKED_LEFT();
}
