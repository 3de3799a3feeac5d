// C12: when_any is ready with the first input, and its index names a ready one.
#include "comb.h"

template <typename V> using any_t = pc::when_any_result<V>;

// ---------------------------------------------------------------- sequential, tuples
SCENARIO(C12, tuple_mixed) {
  init();
  {
    using tup = std::tuple<pc::future<int>, pc::shared_future<uptr>, pc::future<void>>;
    Inputs<int> a(1, 3);
    Inputs<uptr> b(1, 3);
    Inputs<void> c(1, 3);
    int order[3] = {0, 1, 2};
    const int perm = mc::choose(6), call = mc::choose(4), mode = mc::choose(4);
    for (int i = 0; i < perm; i++)
      std::next_permutation(order, order + 3);
    pc::future<any_t<tup>> w;
    pc::future<size_t> g;
    pc::shared_future<any_t<tup>> s;
    mc::ghost n;
    any_t<tup> res{99, tup{}};
    bool have = false;
    auto ok_index = [&](size_t i) { // inputs ready before the call, or the first one after it
      for (int k = 0; k < (call ? call : 1); k++)
        if (order[k] == (int)i)
          return true;
      return false;
    };
    for (int k = 0; k <= 3; k++) {
      if (k == call) {
        pc::shared_future<uptr> sb = b.f[0].share();
        w = pc::when_any(std::move(a.f[0]), sb, std::move(c.f[0]));
        CHECK(sb.valid() && !a.f[0].valid() && !c.f[0].valid());
        CHECK(w.valid() && w.is_ready() == (k > 0));
        if (mode == 1)
          w.notify([n] { n.bump(); });
        if (mode == 2)
          g = w.next([n](any_t<tup> r) {
            n.bump();
            return r.index;
          });
        if (mode == 3)
          s = w.share();
      }
      if (k > call || (k == call && k > 0)) { // at least one input is ready
        if (mode == 2)
          CHECK(g.is_ready() && n.peek() == 1);
        else if (mode == 3) {
          CHECK(s.is_ready());
          CHECK(ok_index(s.get().index), "index %zu", s.get().index);
          if (res.index == 99)
            res.index = s.get().index;
          CHECK(res.index == s.get().index, "index changed");
        } else if (!have) {
          CHECK(w.is_ready());
          if (mode == 1)
            CHECK(n.peek() == 1);
          // taken now or after everything is complete
          if (k == 3 || mc::choose(2)) {
            res = w.get();
            have = true;
            CHECK(ok_index(res.index), "index %zu", res.index);
          }
        }
      }
      if (k == 3)
        break;
      if (order[k] == 0)
        a.next();
      else if (order[k] == 1)
        b.next();
      else
        c.next();
    }
    if (mode == 2)
      CHECK(ok_index(g.get()));
    else if (mode != 3) {
      CHECK(have);
      if (mode == 1)
        CHECK(n.peek() == 1);
      CHECK(get_outcome(std::get<0>(res.futures)) == want<int>(a.how[0], 0));
      CHECK(get_outcome(std::get<1>(res.futures)) == want<uptr>(b.how[0], 0));
      CHECK(get_outcome(std::get<2>(res.futures)) == want<void>(c.how[0], 0));
    }
  }
}
SCENARIO(C12, tuple_small) {
  init();
  const int k = mc::choose(3);
  if (k == 0) {
    auto w = pc::when_any();
    CHECK(w.is_ready());
    CHECK(w.get().index == size_t(-1));
  } else if (k == 1) {
    Inputs<int> a(1, 3);
    const int before = mc::choose(2);
    if (before)
      a.next();
    auto w = pc::when_any(std::move(a.f[0]));
    CHECK(w.is_ready() == (bool)before);
    if (!before)
      a.next();
    CHECK(w.is_ready());
    auto t = w.get();
    CHECK(t.index == 0);
    CHECK(get_outcome(std::get<0>(t.futures)) == want<int>(a.how[0], 0));
  } else {
    Inputs<int> a(1, 3);
    pc::shared_future<int> s = a.f[0].share();
    auto w = pc::when_any(s, s);
    CHECK(!w.is_ready());
    a.next();
    CHECK(w.is_ready());
    auto t = w.get();
    CHECK(t.index < 2);
    CHECK(get_outcome(std::get<0>(t.futures)) == want<int>(a.how[0], 0));
    CHECK(get_outcome(std::get<1>(t.futures)) == want<int>(a.how[0], 0));
  }
}
// ---------------------------------------------------------------- ranges and vectors
template <typename T, typename W, typename In> static void drive(W w, In &in, int n) {
  CHECK(w.valid());
  const bool now = n == 0 || in.n_done() > 0;
  CHECK(w.is_ready() == now, "%d of %d inputs ready", in.n_done(), n);
  std::vector<int> ok = in.done;
  mc::ghost note;
  w.notify([note] { note.bump(); });
  CHECK(note.peek() == now);
  if (!now)
    ok[in.next()] = 1;
  CHECK(w.is_ready() && note.peek() == 1);
  const int late = mc::choose(2); // result taken at once or after all inputs completed
  auto rest = [&] {
    while (!in.left.empty())
      in.next();
  };
  if (late)
    rest();
  auto r = w.get();
  CHECK((int)r.futures.size() == n);
  if (n == 0)
    CHECK(r.index == size_t(-1), "(%zu)", r.index);
  else
    CHECK(r.index < (size_t)n && ok[r.index], "index %zu names an input that was not ready", r.index);
  for (int i = 0; i < n; i++)
    CHECK(r.futures[i].valid() && r.futures[i].is_ready() == (bool)in.done[i]);
  rest();
  CHECK(note.peek() == 1);
  for (int i = 0; i < n; i++)
    CHECK(get_outcome(r.futures[i]) == want<T>(in.how[i], i), "input %d", i);
}
template <typename T = int> static void ranges(int n, int hows) {
  init();
  {
    Inputs<T> in(n, hows);
    const int pre = mc::choose(n + 1), shape = mc::choose(7);
    for (int i = 0; i < pre; i++)
      in.next();
    std::vector<pc::shared_future<T>> s;
    auto share_all = [&] {
      for (auto &f : in.f)
        s.push_back(f.share());
    };
    switch (shape) {
    case 0:
      drive<T>(pc::when_any(in.f.begin(), in.f.end()), in, n);
      break;
    case 1:
      drive<T>(pc::when_any(std::move(in.f)), in, n);
      break;
    case 2:
      share_all();
      drive<T>(pc::when_any(s.begin(), s.end()), in, n);
      for (int i = 0; i < n; i++)
        CHECK(s[i].valid() && get_outcome(s[i]) == want<T>(in.how[i], i));
      break;
    case 3:
      share_all();
      drive<T>(pc::when_any(s), in, n);
      break;
    case 4: {
      std::list<pc::future<T>> l;
      for (auto &f : in.f)
        l.push_back(std::move(f));
      drive<T>(pc::when_any(l.begin(), l.end()), in, n);
      break;
    }
    case 5: {
      size_t pos = 0;
      using It = input_it<std::vector<pc::future<T>>>;
      drive<T>(pc::when_any(It{&in.f, &pos, size_t(-1)}, It{&in.f, &pos, in.f.size()}), in, n);
      break;
    }
    case 6: {
      share_all();
      size_t pos = 0;
      using It = input_it<std::vector<pc::shared_future<T>>>;
      drive<T>(pc::when_any(It{&s, &pos, size_t(-1)}, It{&s, &pos, s.size()}), in, n);
      break;
    }
    }
  }
}
SCENARIO(C12, range0) { ranges(0, 1); }
SCENARIO(C12, range1) { ranges(1, 3); }
SCENARIO(C12, range2) { ranges(2, 3); }
SCENARIO(C12, range3) { ranges(3, mc::thorough() ? 3 : 2); }
SCENARIO(C12, range_void) { ranges<void>(2, 3); }
SCENARIO(C12, range_ref) { ranges<int &>(2, 3); }
SCENARIO(C12, range_uptr) { ranges<uptr>(2, 3); }
SCENARIO(C12, range_tracked) {
  ranges<Tracked>(2, 3);
  NO_TRACKED_LEFT();
}
SCENARIO(C12, range_picky) { ranges<Picky>(2, 3); }
SCENARIO(C12, range4) { ranges(4, 1); }

// when_any over continuations, unwrapped and combined futures
SCENARIO(C12, nested) {
  init();
  {
    Inputs<int> in(4, 1);
    auto w1 = pc::when_all(std::move(in.f[0]), std::move(in.f[1]));
    auto w = pc::when_any(std::move(w1), in.f[2].next([](int v) { return v + 1; }), std::move(in.f[3]));
    while (!in.left.empty()) {
      in.next();
      const bool r[3] = {in.done[0] && in.done[1], (bool)in.done[2], (bool)in.done[3]};
      CHECK(w.is_ready() == (r[0] || r[1] || r[2]));
      if (w.is_ready()) {
        auto x = w.get();
        CHECK(x.index < 3 && r[x.index]);
        CHECK(std::get<0>(x.futures).is_ready() == r[0] && std::get<1>(x.futures).is_ready() == r[1] &&
              std::get<2>(x.futures).is_ready() == r[2]);
        return;
      }
    }
    mc::fail("when_any never became ready");
  }
}
// README example: the winner's future is returned from the continuation
SCENARIO(C12, readme) {
  init();
  Inputs<int> in(2, 2);
  pc::future<int> res = pc::when_any(std::move(in.f[0]), std::move(in.f[1]))
                            .next([](any_t<std::tuple<pc::future<int>, pc::future<int>>> r) {
                              return r.index == 0 ? std::move(std::get<0>(r.futures)) : std::move(std::get<1>(r.futures));
                            });
  CHECK(!res.is_ready());
  const int i = in.next();
  CHECK(res.is_ready());
  CHECK(get_outcome(res) == want<int>(in.how[i], i));
  in.next();
}

// ---------------------------------------------------------------- concurrent
template <typename A, typename B> static void two(bool at_once, int hows) {
  init();
  {
    using tup = std::tuple<pc::future<A>, pc::shared_future<B>>;
    auto a = pc::make_promise<A>();
    auto b = pc::make_promise<B>();
    const int ha = mc::choose(hows), hb = mc::choose(hows), how = mc::choose(3);
    mc::ghost da, db, n;
    pc::future<any_t<tup>> w;
    auto call = [&] { w = pc::when_any(std::move(a.second), b.second.share()); };
    if (!at_once)
      call();
    thr ta([p = std::move(a.first), ha, da]() mutable {
      da.set(1);
      complete<A>(std::move(p), ha, 1);
    });
    thr tb([p = std::move(b.first), hb, db]() mutable {
      db.set(1);
      complete<B>(std::move(p), hb, 2);
    });
    if (at_once)
      call();
    auto look = [&](any_t<tup> r) {
      CHECK(r.index < 2, "index %zu", r.index);
      CHECK((r.index == 0 ? da : db).get(), "ready before any input was");
      CHECK(r.index == 0 ? std::get<0>(r.futures).is_ready() : std::get<1>(r.futures).is_ready(),
            "index %zu names an input that is not ready", r.index);
      mc::outcome("index %zu", r.index);
      CHECK(get_outcome(std::get<0>(r.futures)) == want<A>(ha, 1));
      CHECK(get_outcome(std::get<1>(r.futures)) == want<B>(hb, 2));
    };
    if (how == 0) {
      look(w.get());
    } else if (how == 1) {
      // the continuation may run inside a producer: it must not wait for the other input
      mc::ghost idx(-1);
      pc::future<tup> g = w.next([n, idx](any_t<tup> r) {
        n.bump();
        idx.poke((long)r.index);
        CHECK(r.index == 0 ? std::get<0>(r.futures).is_ready() : std::get<1>(r.futures).is_ready());
        return std::move(r.futures);
      });
      tup t = g.get();
      CHECK(n.peek() == 1);
      CHECK((idx.peek() == 0 ? da : db).get());
      CHECK(get_outcome(std::get<0>(t)) == want<A>(ha, 1));
      CHECK(get_outcome(std::get<1>(t)) == want<B>(hb, 2));
    } else {
      w.notify([n] { n.bump(); });
      if (w.is_ready())
        CHECK(da.get() || db.get());
      pc::shared_future<any_t<tup>> s = w.share();
      const size_t i1 = s.get().index;
      CHECK(i1 < 2 && (i1 == 0 ? da : db).get());
      ta = thr();
      tb = thr();
      CHECK(n.peek() == 1);
      CHECK(s.get().index == i1, "index changed");
      CHECK(std::get<0>(s.get().futures).is_ready() && std::get<1>(s.get().futures).is_ready());
      CHECK(get_outcome(std::get<1>(s.get().futures)) == want<B>(hb, 2));
    }
  }
  NO_TRACKED_LEFT();
}
SCENARIO(C12, two_after, o.preempt = 3) { two<int, void>(false, 1); }
SCENARIO(C12, two_during, o.preempt = 3) { two<Tracked, int>(true, 1); }
SCENARIO(C12, two_fail, o.preempt = 2) { two<int, int>(true, 3); }

static void many(int n, bool range) {
  init();
  {
    std::vector<pc::shared_future<int>> v;
    std::vector<thr> ts;
    mc::ghost done[4];
    std::vector<pc::promise<int>> ps;
    for (int i = 0; i < n; i++) {
      auto x = pc::make_promise<int>();
      v.push_back(x.second.share());
      ps.push_back(std::move(x.first));
    }
    for (int i = 0; i < n; i++)
      ts.emplace_back([p = std::move(ps[i]), d = done[i], i]() mutable {
        d.set(1);
        set_id<int>(p, i);
      });
    auto w = range ? pc::when_any(v.begin(), v.end()) : pc::when_any(std::move(v));
    auto r = w.get();
    CHECK((int)r.futures.size() == n);
    CHECK(r.index < (size_t)n && done[r.index].peek() && r.futures[r.index].is_ready());
    mc::outcome("index %zu", r.index);
    for (int i = 0; i < n; i++)
      CHECK(get_outcome(r.futures[i]) == i);
  }
}
SCENARIO(C12, vector2, o.preempt = 3) { many(2, false); }
SCENARIO(C12, vector3, o.preempt = 2; o.preempt_max = 3) { many(3, false); }
SCENARIO(C12, range3_conc, o.preempt = 2; o.preempt_max = 3) { many(3, true); }

// one input never completes before the other: no dependence on it
SCENARIO(C12, first_only, o.preempt = 4) {
  init();
  auto a = pc::make_promise<int>(), b = pc::make_promise<int>();
  thr t([p = std::move(a.first)]() mutable { set_id<int>(p, 1); });
  auto w = pc::when_any(std::move(b.second), std::move(a.second));
  auto r = w.get(); // b is still pending
  CHECK(r.index == 1);
  CHECK(get_outcome(std::get<1>(r.futures)) == 1);
  CHECK(!std::get<0>(r.futures).is_ready());
  CHECK(b.first.is_awaiten());
  set_id<int>(b.first, 2);
  CHECK(get_outcome(std::get<0>(r.futures)) == 2);
}
// two readers of the shared result see the same index
SCENARIO(C12, shared_result, o.preempt = 2; o.preempt_max = 4) {
  init();
  using tup = std::tuple<pc::shared_future<int>, pc::shared_future<int>>;
  auto a = pc::make_promise<int>(), b = pc::make_promise<int>();
  pc::shared_future<any_t<tup>> w = pc::when_any(a.second.share(), b.second.share()).share();
  mc::ghost i1(-1);
  thr r([w, i1] { i1.poke((long)w.get().index); });
  thr ta([p = std::move(a.first)]() mutable { set_id<int>(p, 1); });
  set_id<int>(b.first, 2);
  const size_t i = w.get().index;
  r = thr();
  CHECK(i < 2 && (long)i == i1.peek());
}
// result taken or dropped while the loser completes
SCENARIO(C12, dropped, o.preempt = 3) {
  init();
  {
    const int how = mc::choose(2);
    auto a = pc::make_promise<Tracked>(), b = pc::make_promise<Tracked>();
    auto w = pc::when_any(std::move(a.second), std::move(b.second));
    thr ta([p = std::move(a.first)]() mutable { set_id<Tracked>(p, 1); });
    thr tb([w = std::move(w), how]() mutable {
      if (how) {
        auto r = w.get();
        CHECK(r.index < 2);
      } else
        w = decltype(w)();
    });
    set_id<Tracked>(b.first, 2);
    ta = thr();
    tb = thr();
    CHECK(live_tracked() == 0);
  }
}
