// C01: what is supplied is what was given at the call, whatever happens to the caller's objects afterwards
#include "copy.h"

template <typename B> struct Plain : B {
  int operator()() const { return this->id.get(); }
};
struct Sum {
  int operator()(const Orig &a, int b) const { return a.id.get() + b; }
};
struct Own {
  int operator()(Orig a, int b) const { return a.id.get() + b; }
};
template <typename F, typename R> static void function_given(int how) {
  {
    Queue q;
    pc::future<R> f;
    pc::packaged_task<R()> t;
    hand<F>::over([&](auto &&fn) {
      if (how == 0)
        f = pc::async(qexec{&q}, FWD(fn));
      else {
        t = pc::packaged_task<R()>(FWD(fn));
        f = t.get_future();
      }
    });
    if (how == 2)
      post(qexec{&q}, std::move(t));
    if (how == 1)
      t();
    else
      q.run_all();
    CHECK(f.is_ready() && f.get() == 5);
  }
  NO_TRACKED_LEFT();
}
SCENARIO(C01, copy_function) {
  init();
  function_given<Plain<Orig>, int>(mc::choose(3));
}
SCENARIO(C01, sole_function) {
  init();
  function_given<Plain<Sole>, int>(mc::choose(3));
}
SCENARIO(C01, sole_argument) {
  init();
  Queue q;
  auto f = pc::async(qexec{&q}, [](Sole a, uptr b, Sole &&c) { return a.id.get() + *b + c.id.get(); }, Sole{}, uptr(new int(1)), Sole{});
  q.run_all();
  CHECK(f.is_ready() && f.get() == 11);
}
SCENARIO(C01, copy_argument) {
  init();
  const int fn = mc::choose(2);
  {
    Queue q;
    pc::future<int> f;
    int b = 10;
    hand_over<Orig>([&](auto &&a) {
      if (fn)
        f = pc::async(qexec{&q}, Sum{}, FWD(a), b);
      else
        f = pc::async(qexec{&q}, Own{}, FWD(a), b);
    });
    b = 20;
    q.run_all();
    CHECK(f.is_ready() && f.get() == 15);
  }
  NO_TRACKED_LEFT();
}
SCENARIO(C01, copy_executor) {
  init();
  {
    Queue q;
    the_queue() = &q;
    pc::future<int> f;
    hand_over_exec([&](auto &&e) { f = pc::async(FWD(e), [] { return 1; }); });
    CHECK(q.run_all() == 1 && f.is_ready() && f.get() == 1);
  }
  NO_TRACKED_LEFT();
}
SCENARIO(C01, copy_value) {
  init();
  const int how = mc::choose(5), shared = mc::choose(2);
  {
    pc::future<Orig> f;
    Queue q;
    pc::promise<Orig> p;
    if (how != 0)
      f = p.get_future();
    hand_over<Orig>([&](auto &&v) {
      switch (how) {
      case 0:
        f = pc::make_ready_future(FWD(v));
        break;
      case 1:
        p.set_value(FWD(v));
        break;
      case 2: {
        pc::future<Orig> g = pc::async(inl{1}, [&]() -> decltype(auto) { return std::decay_t<decltype(v)>(FWD(v)); });
        f = std::move(g);
        break;
      }
      case 3: {
        pc::packaged_task<Orig(Orig)> t([](Orig x) { return x; });
        f = t.get_future();
        t(FWD(v));
        break;
      }
      case 4: {
        pc::packaged_task<Orig(const Orig &)> t([](const Orig &x) { return x; });
        f = t.get_future();
        t(v);
        break;
      }
      }
    });
    CHECK(f.is_ready());
    if (shared) {
      auto s = f.share();
      CHECK(s.get().id.get() == 5 && s.get().id.get() == 5);
    } else
      CHECK(f.get().id.get() == 5);
  }
  NO_TRACKED_LEFT();
}
