// C05: how the function takes its argument and what it returns, in all combinations; a shared parent stays as it was.
#include "common.h"

// returned by the function: plain, ready future, ready shared_future, pending future
template <typename R> struct Ret {
  static R plain() { return kind<R>::make(3); }
};
struct Pend {
  std::vector<pc::unique_function<void()>> v; // completions of pending inner futures
  void fire() {
    for (auto &f : v)
      f();
    v.clear();
  }
};
template <typename R> static pc::future<R> inner(int how, Pend *pend) {
  auto x = pc::make_promise<R>();
  if (how == 0)
    set_id<R>(x.first, 3);
  else
    pend->v.emplace_back([p = std::move(x.first)]() mutable { set_id<R>(p, 3); });
  return std::move(x.second);
}

// Arg: the parameter type of the function
template <typename T, typename Arg, bool SH, typename R> static void next_case() {
  using Fut = std::conditional_t<SH, pc::shared_future<T>, pc::future<T>>;
  init();
  {
    Queue q;
    Pend pend;
    const int ret = mc::choose(4), ex = mc::choose(2), when = mc::choose(2), copies = SH ? mc::choose(2) : 0;
    mc::ghost got, runs;
    auto x = pc::make_promise<T>();
    Fut f(std::move(x.second));
    Fut other = f.valid() && copies ? Fut(std::move(f)) : Fut();
    if (SH && copies) {
      f = Fut();
      // both handles read the same result
      f = std::move(other);
    }
    if (when)
      set_id<T>(x.first, 1);
    auto see = [=](auto &&v) {
      runs.bump();
      got.poke(kind<T>::id(v));
    };
    pc::future<R> g;
    auto attach = [&](auto fn) { return ex ? f.next(qexec{&q}, std::move(fn)) : f.next(std::move(fn)); };
    switch (ret) {
    case 0:
      g = attach([see](Arg a) mutable -> R {
        std::decay_t<Arg> mine(std::forward<Arg>(a));
        see(mine);
        return kind<R>::make(3);
      });
      break;
    case 1:
      g = attach([see, &pend](Arg a) mutable {
        std::decay_t<Arg> mine(std::forward<Arg>(a));
        see(mine);
        return inner<R>(0, &pend);
      });
      break;
    case 2:
      g = attach([see, &pend](Arg a) mutable {
        std::decay_t<Arg> mine(std::forward<Arg>(a));
        see(mine);
        return inner<R>(1, &pend);
      });
      break;
    default: {
      pc::future<R> h = attach([see, &pend](Arg a) mutable {
        std::decay_t<Arg> mine(std::forward<Arg>(a));
        see(mine);
        return inner<R>(0, &pend);
      });
      g = std::move(h);
    }
    }
    CHECK(f.valid() == SH);
    if (!when)
      set_id<T>(x.first, 1);
    q.run_all();
    if (ret == 2)
      CHECK(!g.is_ready(), "ready before the inner future");
    pend.fire();
    CHECK(runs.peek() == 1, "ran %ld times", runs.peek());
    CHECK(got.peek() == 1, "the function saw value %ld", got.peek());
    CHECK(g.is_ready());
    if constexpr (SH) {
      pc::shared_future<T> c = f;
      int o = get_outcome(f);
      CHECK(o == 1, "the shared value was changed (%d)", o);
      CHECK(get_outcome(c) == 1);
      // and a second reader through another continuation
      mc::ghost again;
      auto h = c.next([again](const T &v) { again.poke(kind<T>::id(v)); });
      h.get();
      CHECK(again.peek() == 1);
    }
    int o = get_outcome(g);
    CHECK(o == vid<R>(3), "(%d)", o);
  }
  NO_TRACKED_LEFT();
}
template <typename T, typename Arg, bool SH> static void next_ret() {
  switch (mc::choose(3)) {
  case 0:
    return next_case<T, Arg, SH, int>();
  case 1:
    return next_case<T, Arg, SH, void>();
  default:
    return next_case<T, Arg, SH, Tracked>();
  }
}
SCENARIO(C05, arg_tracked) {
  switch (mc::choose(6)) {
  case 0:
    return next_ret<Tracked, Tracked, true>();
  case 1:
    return next_ret<Tracked, const Tracked &, true>();
  case 2:
    return next_ret<Tracked, Tracked, false>();
  case 3:
    return next_ret<Tracked, const Tracked &, false>();
  case 4:
    return next_ret<Tracked, Tracked &&, false>();
  default:
    return next_ret<Tracked, const Tracked, true>();
  }
}
SCENARIO(C05, arg_string) {
  switch (mc::choose(3)) {
  case 0:
    return next_ret<std::string, std::string, true>();
  case 1:
    return next_ret<std::string, std::string, false>();
  default:
    return next_ret<std::string, const std::string &, true>();
  }
}

// then: by-value, by-rvalue and by-const-reference parameters, unwrapping and not
template <typename T, typename Fut, typename Arg, typename R> static void then_case() {
  constexpr bool SH = !std::is_same<Fut, pc::future<T>>::value;
  init();
  {
    Queue q;
    Pend pend;
    const int ret = mc::choose(3), ex = mc::choose(2), when = mc::choose(2), fails = mc::choose(2);
    mc::ghost got, runs;
    auto x = pc::make_promise<T>();
    Fut f(std::move(x.second));
    auto fire = [&] {
      if (fails)
        x.first.set_exception(err(2));
      else
        set_id<T>(x.first, 1);
    };
    if (when)
      fire();
    auto see = [=](auto &v) {
      runs.bump();
      CHECK(v.valid() && v.is_ready());
      got.poke(get_outcome(v));
    };
    pc::future<R> g;
    auto attach = [&](auto fn) { return ex ? f.then(qexec{&q}, std::move(fn)) : f.then(std::move(fn)); };
    if (ret == 0)
      g = attach([see](Arg a) -> R {
        Fut mine(std::forward<Arg>(a));
        see(mine);
        return kind<R>::make(3);
      });
    else
      g = attach([see, ret, &pend](Arg a) {
        Fut mine(std::forward<Arg>(a));
        see(mine);
        return inner<R>(ret - 1, &pend);
      });
    CHECK(f.valid() == SH);
    if (!when)
      fire();
    q.run_all();
    pend.fire();
    CHECK(runs.peek() == 1);
    CHECK(got.peek() == (fails ? EXC - 2 : vid<T>(1)), "(%ld)", got.peek());
    if constexpr (SH) {
      CHECK(get_outcome(f) == (fails ? EXC - 2 : vid<T>(1)), "the shared value was changed");
      CHECK(get_outcome(f) == (fails ? EXC - 2 : vid<T>(1)));
    }
    int o = get_outcome(g);
    CHECK(o == vid<R>(3), "(%d)", o);
  }
  NO_TRACKED_LEFT();
}
template <typename T> static void then_all() {
  switch (mc::choose(8)) {
  case 0:
    return then_case<T, pc::future<T>, pc::future<T>, int>();
  case 1:
    return then_case<T, pc::future<T>, pc::future<T> &&, Tracked>();
  case 2:
    return then_case<T, pc::shared_future<T>, pc::shared_future<T>, int>();
  case 3:
    return then_case<T, pc::shared_future<T>, const pc::shared_future<T> &, Tracked>();
  case 4:
    return then_case<T, pc::shared_future<T>, pc::shared_future<T> &&, void>();
  case 5:
    return then_case<T, pc::future<T>, pc::future<T>, void>();
  case 6:
    return then_case<T, pc::shared_future<T>, pc::shared_future<T>, Tracked>();
  default:
    return then_case<T, pc::future<T>, pc::future<T>, Tracked>();
  }
}
SCENARIO(C05, then_args_tracked) { then_all<Tracked>(); }
SCENARIO(C05, then_args_void) { then_all<void>(); }
SCENARIO(C05, then_args_ref) { then_all<int &>(); }

// a function that takes whatever it is given, and changes it where it may
template <bool SH> static void greedy() {
  using Fut = std::conditional_t<SH, pc::shared_future<Tracked>, pc::future<Tracked>>;
  init();
  {
    Queue q;
    const int ret = mc::choose(3), ex = mc::choose(2), when = mc::choose(2);
    auto x = pc::make_promise<Tracked>();
    Fut f(std::move(x.second));
    if (when)
      x.first.set_value(Tracked(1));
    auto take = [](auto &&v) {
      Tracked mine(std::forward<decltype(v)>(v));
      if constexpr (!std::is_const<std::remove_reference_t<decltype(v)>>::value)
        v = Tracked(99);
      return mine.get();
    };
    auto attach = [&](auto fn) { return ex ? f.next(qexec{&q}, std::move(fn)) : f.next(std::move(fn)); };
    pc::shared_future<int> g;
    if (ret == 0)
      g = attach([take](auto &&v) -> int { return take(std::forward<decltype(v)>(v)) + 3; });
    else if (ret == 1)
      g = attach([take](auto &&v) -> pc::future<int> { return pc::make_ready_future(take(std::forward<decltype(v)>(v)) + 3); });
    else
      g = attach([take](auto &&v) -> pc::shared_future<int> { return pc::make_ready_future(take(std::forward<decltype(v)>(v)) + 3); });
    if (!when)
      x.first.set_value(Tracked(1));
    q.run_all();
    CHECK(g.get() == 4, "(%d)", g.get());
    if constexpr (SH) {
      const int o = get_outcome(f);
      CHECK(o == 1, "the shared value was changed (%d)", o);
    }
  }
  NO_TRACKED_LEFT();
}
SCENARIO(C05, arg_greedy) { greedy<false>(); }
SCENARIO(C05, arg_greedy_shared) { greedy<true>(); }
