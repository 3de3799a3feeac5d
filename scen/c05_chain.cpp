#include "c05.h"

// Chains of three stages: every flavour at every stage, failure at every stage, completion before,
// between and after the attachments.
struct Ev {
  int stage;
  int in;
};
static pc::future<int> add_stage(pc::future<int> f, int flavour, int i, bool fails, Queue *q, mc::ghost runs, mc::ghost in) {
  auto body = [i, fails, runs, in](int v) {
    runs.bump();
    in.poke(v);
    if (fails)
      throw test_error{10 + i};
    return v * 10 + i;
  };
  auto tbody = [body](pc::future<int> p) mutable { return body(p.get()); };
  switch (flavour) {
  case 0:
    return f.next(body);
  case 1:
    return f.then(tbody);
  case 2:
    return f.next(qexec{q}, body);
  case 3:
    return f.then(qexec{q}, tbody);
  case 4:
    return f.share().next([body](const int &v) mutable { return body(v); });
  case 5:
    return f.share().then([body](pc::shared_future<int> p) mutable { return body(p.get()); });
  case 6:
    return f.then([body](pc::promise<int> r, pc::future<int> p) mutable {
      try {
        r.set_value(body(p.get()));
      } catch (...) {
        r.set_exception(std::current_exception());
      }
    });
  default:
    return f.next([body](int v) mutable { return pc::make_ready_future(body(v)); });
  }
}
SCENARIO(C05, chain, o.preempt = 0; o.preempt_max = 0) {
  init();
  Queue q;
  {
    const int n = mc::thorough() ? 4 : 3;
    const int how = mc::choose(3), at = mc::choose(n + 1), failing = mc::choose(n + 1);
    auto x = pc::make_promise<int>();
    auto fire = [&] {
      if (how == 0)
        x.first.set_value(7);
      else if (how == 1)
        x.first.set_exception(err(2));
      else
        pc::promise<int> gone(std::move(x.first));
    };
    pc::future<int> f = std::move(x.second);
    mc::ghost runs[4], in[4];
    for (int i = 0; i < n; i++) {
      if (i == at)
        fire();
      f = add_stage(std::move(f), mc::choose(8), i, i == failing, &q, runs[i], in[i]);
    }
    if (at == n)
      fire();
    q.run_all();
    CHECK(f.is_ready());
    int want = how == 0 ? 7 : how == 1 ? EXC - 2 : BROKEN;
    for (int i = 0; i < n; i++) {
      if (want >= 0) {
        CHECK(runs[i].peek() == 1 && in[i].peek() == want, "(stage %d ran %ld times, saw %ld, want %d)", i, runs[i].peek(), in[i].peek(), want);
        want = i == failing ? EXC - 10 - i : want * 10 + i;
      } else
        CHECK(runs[i].peek() == 0, "(stage %d ran after a failure)", i);
    }
    int o = outcome_of([&] { return f.get(); });
    CHECK(o == want, "(got %d want %d)", o, want);
  }
}
// several continuations on one shared future, some of which fail; all see the same unmodified value
SCENARIO(C05, fan_out) {
  init();
  {
    auto x = pc::make_promise<Tracked>();
    pc::shared_future<Tracked> s = x.second.share();
    const bool before = mc::choose(2), fail = mc::choose(2);
    auto fire = [&] {
      if (fail)
        x.first.set_exception(err(2));
      else
        x.first.set_value(Tracked(1));
    };
    if (before)
      fire();
    auto a = s.next([](const Tracked &t) { return t.get(); });
    auto b = s.next([](Tracked t) -> Tracked { return t; });
    auto c = s.then([](pc::shared_future<Tracked> f) -> int {
      f.get();
      throw test_error{3};
    });
    auto d = s.next([](const Tracked &t) -> const Tracked & { return t; }).next([](const Tracked &t) { return t.get(); });
    auto e = s.next([](const Tracked &) -> void { throw test_error{5}; });
    if (!before)
      fire();
    const int bad = EXC - 2;
    CHECK(outcome_of([&] { return a.get(); }) == (fail ? bad : 1));
    CHECK(outcome_of([&] { Tracked t = b.get(); return t.get(); }) == (fail ? bad : 1));
    CHECK(outcome_of([&] { return c.get(); }) == (fail ? bad : EXC - 3));
    CHECK(outcome_of([&] { return d.get(); }) == (fail ? bad : 1));
    CHECK(outcome_of([&] { e.get(); return 0; }) == (fail ? bad : EXC - 5));
    CHECK(get_outcome(s) == (fail ? bad : 1));
  }
  NO_TRACKED_LEFT();
}
// the same while the result arrives from another thread
template <typename R, typename T, bool SH> static void race() {
  init();
  {
    using Fut = std::conditional_t<SH, pc::shared_future<T>, pc::future<T>>;
    const int op = mc::choose(3), how = mc::choose(3), ex = mc::choose(2);
    const bool throws = how == 0 && mc::choose(2);
    Seen s;
    auto x = pc::make_promise<T>();
    Fut f(std::move(x.second));
    thr t([p = std::move(x.first), how]() mutable { complete(p, how); });
    pc::future<R> g;
    if (op == 0)
      g = ex ? f.then(inl{3}, ThenFn<R, Fut>{s, throws, Tracked(55)}) : f.then(ThenFn<R, Fut>{s, throws, Tracked(55)});
    else if (op == 1)
      g = ex ? f.next(inl{3}, NextFn<R, T, SH>{s, throws, Tracked(55)}) : f.next(NextFn<R, T, SH>{s, throws, Tracked(55)});
    else
      g = ex ? f.then(inl{3}, IThenFn<R, Fut>{s, throws, Tracked(55)}) : f.then(IThenFn<R, Fut>{s, throws, Tracked(55)});
    const int o = get_outcome(g);
    const bool called = op != 1 || how == 0;
    CHECK(o == (called ? want_result<R>(throws) : parent_outcome<T>(how)), "(got %d)", o);
    CHECK(s.runs.peek() == called);
    if (called)
      CHECK(s.arg.peek() == parent_outcome<T>(how));
    if (SH && op != 2)
      CHECK(get_outcome(f) == parent_outcome<T>(how));
  }
  NO_TRACKED_LEFT();
}
SCENARIO(C05, race_tracked, o.preempt = 2; o.preempt_max = -1) { race<int, Tracked, false>(); }
SCENARIO(C05, race_shared_tracked, o.preempt = 2; o.preempt_max = -1) { race<uptr, Tracked, true>(); }
SCENARIO(C05, race_uptr, o.preempt = 2; o.preempt_max = -1) { race<Tracked, uptr, false>(); }
SCENARIO(C05, race_void, o.preempt = 2; o.preempt_max = -1) { race<void, void, false>(); }
SCENARIO(C05, race_ref, o.preempt = 2; o.preempt_max = -1) { race<int &, int &, true>(); }

// pools
SCENARIO(C05, pool_chain, o.preempt = 2; o.preempt_max = 3) {
  init();
  {
    const int fail = mc::choose(4);
    mc::ghost r1, r2, r3;
    pc::static_thread_pool pool(1);
    auto f = pc::async(pool.executor(), [=] {
               r1.bump();
               if (fail == 1)
                 throw test_error{1};
               return Tracked(1);
             }).next(pool.executor(), [=](Tracked t) {
               r2.bump();
               if (fail == 2)
                 throw test_error{2};
               return t.get() + 1;
             }).then(pool.executor(), [=](pc::future<int> f) {
      r3.bump();
      if (fail == 3)
        throw test_error{3};
      return f.get() + 1;
    });
    const int o = outcome_of([&] { return f.get(); });
    CHECK(o == (fail ? EXC - fail : 3), "(%d)", o);
    CHECK(r1.peek() == 1 && r2.peek() == (fail != 1) && r3.peek() == 1);
  }
  NO_TRACKED_LEFT();
}
// conversions between result types, const and generic lambdas, function pointers, member functions
static int twice(int v) { return 2 * v; }
struct Acc {
  int base;
  int add(int x) { return base + x; }
};
SCENARIO(C05, callables) {
  init();
  {
    CHECK(pc::make_ready_future(5).next(twice).get() == 10);
    CHECK(pc::make_ready_future(5).next(&twice).get() == 10);
    CHECK(pc::make_ready_future(5).next([](auto v) { return v + 1; }).get() == 6);
    CHECK(pc::make_ready_future(5).next([](int &&v) { return v + 2; }).get() == 7);
    CHECK(pc::make_ready_future(5).next(std::function<int(int)>(twice)).get() == 10);
    Acc acc{100};
    CHECK(pc::make_ready_future(&acc).next([](Acc *a) { return a->add(3); }).get() == 103);
    pc::unique_function<int(int)> uf = [p = uptr(new int(4))](int v) { return *p + v; };
    CHECK(pc::make_ready_future(5).next(std::move(uf)).get() == 9);
    auto f = pc::make_ready_future(std::string("abc")).next([](const std::string &s) { return s + "d"; });
    CHECK(f.get() == "abcd");
    const auto lam = [](pc::future<int> f) { return f.get() + 1; };
    CHECK(pc::make_ready_future(1).then(lam).get() == 2);
    auto l2 = [n = 0](int v) mutable { return ++n + v; };
    auto g1 = pc::make_ready_future(1).next(l2);
    auto g2 = pc::make_ready_future(1).next(l2);
    CHECK(g1.get() == 2 && g2.get() == 2);
    Tracked t(8);
    auto h = pc::make_ready_future(std::ref(t)).next([](Tracked &x) -> Tracked & { return x; });
    CHECK(&h.get() == &t);
  }
  NO_TRACKED_LEFT();
}
