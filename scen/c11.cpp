// C11: when_all is ready exactly when every input is, with all inputs in order.
#include "comb.h"

// ---------------------------------------------------------------- sequential, tuples
static void check_watch(mc::ghost n, bool ready) { CHECK(n.peek() == ready, "notified %ld times", n.peek()); }

SCENARIO(C11, tuple_mixed) {
  init();
  {
    Inputs<int> a(1, 3);
    Inputs<uptr> b(1, 3);
    Inputs<void> c(1, 3);
    // completion order of the three inputs and the position of the call in it
    int order[3] = {0, 1, 2};
    const int perm = mc::choose(6), call = mc::choose(4), mode = mc::choose(4);
    for (int i = 0; i < perm; i++)
      std::next_permutation(order, order + 3);
    pc::future<std::tuple<pc::future<int>, pc::shared_future<uptr>, pc::future<void>>> w;
    pc::future<int> g;
    mc::ghost n, m;
    for (int k = 0; k <= 3; k++) {
      if (k == call) {
        pc::shared_future<uptr> sb = b.f[0].share();
        w = pc::when_all(std::move(a.f[0]), sb, std::move(c.f[0]));
        CHECK(sb.valid(), "shared input was moved from");
        CHECK(!a.f[0].valid() && !c.f[0].valid());
        CHECK(w.valid() && w.is_ready() == (k == 3));
        if (mode == 1)
          w.notify([n] { n.bump(); });
        if (mode == 2)
          g = w.next([m](std::tuple<pc::future<int>, pc::shared_future<uptr>, pc::future<void>> t) {
            m.bump();
            return std::get<0>(t).is_ready() && std::get<1>(t).is_ready() && std::get<2>(t).is_ready() ? 1 : 0;
          });
      }
      if (k == 3)
        break;
      if (order[k] == 0)
        a.next();
      else if (order[k] == 1)
        b.next();
      else
        c.next();
      if (k >= call) {
        if (mode == 2)
          CHECK(g.is_ready() == (k == 2) && m.peek() == (k == 2));
        else
          CHECK(w.is_ready() == (k == 2), "after %d of 3 inputs", k + 1);
        if (mode == 1)
          check_watch(n, k == 2);
      }
    }
    if (mode == 2)
      CHECK(g.get() == 1);
    else if (mode != 3) {
      auto t = w.get();
      CHECK(std::get<0>(t).is_ready() && std::get<1>(t).is_ready() && std::get<2>(t).is_ready());
      CHECK(get_outcome(std::get<0>(t)) == want<int>(a.how[0], 0));
      CHECK(get_outcome(std::get<1>(t)) == want<uptr>(b.how[0], 0));
      CHECK(get_outcome(std::get<2>(t)) == want<void>(c.how[0], 0));
    } else {
      pc::shared_future<std::tuple<pc::future<int>, pc::shared_future<uptr>, pc::future<void>>> s = w.share();
      for (int i = 0; i < 2; i++) {
        const auto &t = s.get();
        CHECK(std::get<0>(t).is_ready() && std::get<1>(t).is_ready() && std::get<2>(t).is_ready());
      }
    }
  }
}
SCENARIO(C11, tuple_small) {
  init();
  const int k = mc::choose(3);
  if (k == 0) {
    auto w = pc::when_all();
    CHECK(w.is_ready());
    w.get();
  } else if (k == 1) {
    Inputs<int> a(1, 3);
    const int before = mc::choose(2);
    if (before)
      a.next();
    auto w = pc::when_all(std::move(a.f[0]));
    CHECK(w.is_ready() == (bool)before);
    if (!before)
      a.next();
    CHECK(w.is_ready());
    auto t = w.get();
    CHECK(get_outcome(std::get<0>(t)) == want<int>(a.how[0], 0));
  } else { // the same shared future twice
    Inputs<int> a(1, 3);
    pc::shared_future<int> s = a.f[0].share();
    auto w = pc::when_all(s, s);
    CHECK(!w.is_ready());
    a.next();
    CHECK(w.is_ready());
    auto t = w.get();
    CHECK(get_outcome(std::get<0>(t)) == want<int>(a.how[0], 0));
    CHECK(get_outcome(std::get<1>(t)) == want<int>(a.how[0], 0));
  }
}
// ---------------------------------------------------------------- sequential, ranges and vectors
template <typename F> struct cnt_alloc : std::allocator<F> { // a vector allocator of its own type
  template <typename U> struct rebind {
    using other = cnt_alloc<U>;
  };
  cnt_alloc() = default;
  template <typename U> cnt_alloc(const cnt_alloc<U> &) {}
};
template <typename T, typename W, typename In> static void drive(W w, In &in, int n, bool second_look) {
  CHECK(w.valid());
  CHECK(w.is_ready() == in.left.empty(), "with %zu inputs pending", in.left.size());
  mc::ghost note;
  w.notify([note] { note.bump(); });
  while (!in.left.empty()) {
    check_watch(note, false);
    in.next();
    CHECK(w.is_ready() == in.left.empty(), "with %zu inputs pending", in.left.size());
  }
  check_watch(note, true);
  (void)second_look;
  auto v = w.get();
  CHECK((int)v.size() == n);
  for (int i = 0; i < n; i++)
    CHECK(v[i].is_ready() && get_outcome(v[i]) == want<T>(in.how[i], i), "input %d", i);
}
template <typename T = int> static void ranges(int n, int hows) {
  init();
  {
    Inputs<T> in(n, hows);
    const int pre = mc::choose(n + 1), shape = mc::choose(8);
    for (int i = 0; i < pre; i++)
      in.next();
    std::vector<pc::shared_future<T>> s;
    auto share_all = [&] {
      for (auto &f : in.f)
        s.push_back(f.share());
    };
    switch (shape) {
    case 0:
      drive<T>(pc::when_all(in.f.begin(), in.f.end()), in, n, false);
      break;
    case 1:
      drive<T>(pc::when_all(std::move(in.f)), in, n, false);
      break;
    case 2:
      share_all();
      drive<T>(pc::when_all(s.begin(), s.end()), in, n, false);
      for (int i = 0; i < n; i++)
        CHECK(s[i].valid() && get_outcome(s[i]) == want<T>(in.how[i], i));
      break;
    case 3:
      share_all();
      drive<T>(pc::when_all(s), in, n, false);
      break;
    case 4: {
      std::list<pc::future<T>> l;
      for (auto &f : in.f)
        l.push_back(std::move(f));
      drive<T>(pc::when_all(l.begin(), l.end()), in, n, false);
      break;
    }
    case 5: {
      size_t pos = 0;
      using It = input_it<std::vector<pc::future<T>>>;
      drive<T>(pc::when_all(It{&in.f, &pos, size_t(-1)}, It{&in.f, &pos, in.f.size()}), in, n, false);
      break;
    }
    case 6: {
      share_all();
      size_t pos = 0;
      using It = input_it<std::vector<pc::shared_future<T>>>;
      drive<T>(pc::when_all(It{&s, &pos, size_t(-1)}, It{&s, &pos, s.size()}), in, n, false);
      break;
    }
    case 7: {
      std::vector<pc::future<T>, cnt_alloc<pc::future<T>>> v;
      for (auto &f : in.f)
        v.push_back(std::move(f));
      drive<T>(pc::when_all(std::move(v)), in, n, false);
      break;
    }
    }
  }
}
SCENARIO(C11, range0) { ranges(0, 1); }
SCENARIO(C11, range1) { ranges(1, 3); }
SCENARIO(C11, range2) { ranges(2, 3); }
SCENARIO(C11, range3) { ranges(3, mc::thorough() ? 3 : 2); }
SCENARIO(C11, range_void) { ranges<void>(2, 3); }
SCENARIO(C11, range_ref) { ranges<int &>(2, 3); }
SCENARIO(C11, range_uptr) { ranges<uptr>(2, 3); }
SCENARIO(C11, range_tracked) {
  ranges<Tracked>(2, 3);
  NO_TRACKED_LEFT();
}
SCENARIO(C11, range_picky) { ranges<Picky>(2, 3); }
SCENARIO(C11, range4) { ranges(4, 1); }
SCENARIO(C11, range5) {
  if (mc::thorough())
    ranges(5, 1);
  else
    ranges(1, 1);
}
// inputs that are continuations, unwrapped or combined futures themselves
SCENARIO(C11, nested) {
  init();
  {
    Inputs<int> in(4, 1);
    auto w1 = pc::when_all(std::move(in.f[0]), in.f[1].next([](int v) { return v + 1; }));
    pc::future<int> un = in.f[2].next([x = std::move(in.f[3])](int) mutable { return std::move(x); });
    auto w = pc::when_all(std::move(w1), std::move(un), pc::make_ready_future(5));
    while (!in.left.empty()) {
      CHECK(!w.is_ready());
      in.next();
    }
    CHECK(w.is_ready());
    auto t = w.get();
    auto t1 = std::get<0>(t).get();
    CHECK(get_outcome(std::get<0>(t1)) == 0);
    CHECK(std::get<1>(t1).get() == 1002);
    CHECK(get_outcome(std::get<1>(t)) == 3);
    CHECK(std::get<2>(t).get() == 5);
  }
}

// ---------------------------------------------------------------- concurrent
// two producers against the call of when_all and the consumer of its result
template <typename A, typename B> static void two(bool at_once, int hows) {
  init();
  {
    auto a = pc::make_promise<A>();
    auto b = pc::make_promise<B>();
    const int ha = mc::choose(hows), hb = mc::choose(hows), how = mc::choose(3);
    mc::ghost da, db, n;
    pc::future<std::tuple<pc::future<A>, pc::shared_future<B>>> w;
    auto call = [&] { w = pc::when_all(std::move(a.second), b.second.share()); };
    if (!at_once)
      call();
    thr ta([p = std::move(a.first), ha, da]() mutable {
      da.set(1);
      complete<A>(std::move(p), ha, 1);
    });
    thr tb([p = std::move(b.first), hb, db]() mutable {
      db.set(1);
      complete<B>(std::move(p), hb, 2);
    });
    if (at_once)
      call();
    auto look = [&](std::tuple<pc::future<A>, pc::shared_future<B>> t) {
      CHECK(da.get() && db.get(), "ready before every input was");
      CHECK(std::get<0>(t).is_ready() && std::get<1>(t).is_ready());
      CHECK(get_outcome(std::get<0>(t)) == want<A>(ha, 1));
      CHECK(get_outcome(std::get<1>(t)) == want<B>(hb, 2));
    };
    if (how == 0) {
      look(w.get());
    } else if (how == 1) {
      pc::future<void> g = w.next([&](std::tuple<pc::future<A>, pc::shared_future<B>> t) {
        n.bump();
        look(std::move(t));
      });
      g.get();
      CHECK(n.peek() == 1);
    } else {
      w.notify([n] { n.bump(); });
      const bool r = w.is_ready();
      if (r)
        CHECK(da.get() && db.get(), "ready before every input was");
      ta = thr();
      tb = thr();
      CHECK(w.is_ready(), "not ready although every input is");
      CHECK(n.peek() == 1);
      look(w.get());
    }
  }
  NO_TRACKED_LEFT();
}
SCENARIO(C11, two_after, o.preempt = 3) { two<int, void>(false, 1); }
SCENARIO(C11, two_during, o.preempt = 3) { two<Tracked, int>(true, 1); }
SCENARIO(C11, two_fail, o.preempt = 2) { two<int, int>(true, 3); }

static void many(int n, bool range) {
  init();
  {
    std::vector<pc::future<int>> v;
    std::vector<thr> ts;
    mc::ghost done[4];
    std::vector<pc::promise<int>> ps;
    for (int i = 0; i < n; i++) {
      auto x = pc::make_promise<int>();
      v.push_back(std::move(x.second));
      ps.push_back(std::move(x.first));
    }
    for (int i = 0; i < n; i++)
      ts.emplace_back([p = std::move(ps[i]), d = done[i], i]() mutable {
        d.set(1);
        set_id<int>(p, i);
      });
    auto w = range ? pc::when_all(v.begin(), v.end()) : pc::when_all(std::move(v));
    auto r = w.get();
    CHECK((int)r.size() == n);
    for (int i = 0; i < n; i++) {
      CHECK(done[i].peek());
      CHECK(r[i].is_ready() && get_outcome(r[i]) == i);
    }
  }
}
SCENARIO(C11, vector2, o.preempt = 3) { many(2, false); }
SCENARIO(C11, vector3, o.preempt = 2; o.preempt_max = 3) { many(3, false); }
SCENARIO(C11, range3_conc, o.preempt = 2; o.preempt_max = 3) { many(3, true); }

// two readers of the shared result
SCENARIO(C11, shared_result, o.preempt = 2; o.preempt_max = 4) {
  init();
  auto a = pc::make_promise<int>(), b = pc::make_promise<int>();
  pc::shared_future<std::tuple<pc::shared_future<int>, pc::shared_future<int>>> w =
      pc::when_all(a.second.share(), b.second.share()).share();
  thr r([w] {
    const auto &t = w.get();
    CHECK(get_outcome(std::get<0>(t)) == 1 && get_outcome(std::get<1>(t)) == 2);
  });
  thr ta([p = std::move(a.first)]() mutable { set_id<int>(p, 1); });
  set_id<int>(b.first, 2);
  const auto &t = w.get();
  CHECK(get_outcome(std::get<0>(t)) == 1 && get_outcome(std::get<1>(t)) == 2);
}
// the same shared input completed by one thread, used by two when_all calls
SCENARIO(C11, common_input, o.preempt = 3) {
  init();
  auto a = pc::make_promise<int>(), b = pc::make_promise<int>();
  pc::shared_future<int> s = a.second.share();
  auto w1 = pc::when_all(s, std::move(b.second));
  thr t([p = std::move(a.first)]() mutable { set_id<int>(p, 1); });
  auto w2 = pc::when_all(s, s);
  set_id<int>(b.first, 2);
  auto t2 = w2.get();
  CHECK(get_outcome(std::get<0>(t2)) == 1 && get_outcome(std::get<1>(t2)) == 1);
  auto t1 = w1.get();
  CHECK(get_outcome(std::get<0>(t1)) == 1 && get_outcome(std::get<1>(t1)) == 2);
}
// result dropped while the inputs complete
SCENARIO(C11, dropped, o.preempt = 3) {
  init();
  {
    auto a = pc::make_promise<Tracked>(), b = pc::make_promise<Tracked>();
    mc::ghost n;
    auto w = pc::when_all(std::move(a.second), std::move(b.second));
    w.notify([n] { n.bump(); });
    thr ta([p = std::move(a.first)]() mutable { set_id<Tracked>(p, 1); });
    thr tb([w = std::move(w)]() mutable { w = decltype(w)(); });
    set_id<Tracked>(b.first, 2);
    ta = thr();
    tb = thr();
    CHECK(n.peek() <= 1);
    CHECK(live_tracked() == 0);
  }
}
