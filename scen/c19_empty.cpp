// C19: every operation, in every overload, on every kind of object without state raises no_state and changes nothing;
// the same operation on an object with state does not.
#include "common.h"

template <typename T> struct nf {
  static auto make(mc::ghost ran) {
    return [ran](const T &) { ran.bump(); };
  }
  static auto make_failing(mc::ghost ran) {
    return [ran](const T &) -> pc::future<int> {
      ran.bump();
      throw test_error{1};
    };
  }
};
template <typename U> struct nf<U &> {
  static auto make(mc::ghost ran) {
    return [ran](U &) { ran.bump(); };
  }
  static auto make_failing(mc::ghost ran) {
    return [ran](U &) -> pc::future<int> {
      ran.bump();
      throw test_error{1};
    };
  }
};
template <> struct nf<void> {
  static auto make(mc::ghost ran) {
    return [ran] { ran.bump(); };
  }
  static auto make_failing(mc::ghost ran) {
    return [ran]() -> pc::future<int> {
      ran.bump();
      throw test_error{1};
    };
  }
};

// outcome of operation `op` of the shared part of the interfaces; `own` is the type the function of then gets
template <typename T, typename F> static int common_op(F &f, int op, mc::ghost ran) {
  using namespace std::chrono;
  return outcome_of([&]() -> int {
    switch (op) {
    case 0:
      return (int)f.is_ready() * 0 + 1;
    case 1:
      f.wait();
      return 1;
    case 2:
      f.wait_for(milliseconds(0));
      return 1;
    case 3:
      f.wait_until(system_clock::now());
      return 1;
    case 4:
      f.wait_until(steady_clock::now());
      return 1;
    case 5:
      f.notify([ran] { ran.bump(); });
      return 1;
    case 6:
      f.notify(inl{1}, [ran] { ran.bump(); });
      return 1;
    case 7: {
      auto g = f.then([ran](F) { ran.bump(); });
      CHECK(g.valid());
      return 1;
    }
    case 8: {
      auto g = f.then(inl{1}, [ran](F) { ran.bump(); });
      CHECK(g.valid());
      return 1;
    }
    case 9: {
      auto g = f.then([ran](pc::promise<int> p, F) {
        ran.bump();
        p.set_value(1);
      });
      CHECK(g.valid());
      return 1;
    }
    case 10: {
      auto g = f.then(inl{1}, [ran](pc::promise<int> p, F) {
        ran.bump();
        p.set_value(1);
      });
      CHECK(g.valid());
      return 1;
    }
    case 11: {
      auto g = f.next(nf<T>::make(ran));
      CHECK(g.valid());
      return 1;
    }
    case 12: {
      auto g = f.next(inl{1}, nf<T>::make(ran));
      CHECK(g.valid());
      return 1;
    }
    case 13: { // unwrapping continuations
      auto g = f.then([ran](F) {
        ran.bump();
        return pc::make_ready_future(1);
      });
      CHECK(g.valid());
      return 1;
    }
    case 14: {
      auto g = f.next(inl{1}, nf<T>::make_failing(ran));
      CHECK(g.valid());
      return 1;
    }
    case 15: {
      auto g = f.detach();
      CHECK(g.valid() && !f.valid());
      return 1;
    }
    default: {
      int o = get_outcome(f);
      return o == NO_STATE ? throw std::future_error(std::future_errc::no_state), 0 : 1;
    }
    }
  });
}
static constexpr int N_COMMON = 17;

template <typename T> static void empty_future() {
  init();
  {
    const int op = mc::choose(N_COMMON), how = mc::choose(12);
    mc::ghost ran;
    pc::promise<T> p;
    pc::future<T> f, keep;
    pc::shared_future<T> skeep;
    pc::future<void> vkeep;
    bool empty = true, runs = false;
    if (how >= 1)
      f = p.get_future();
    switch (how) {
    case 0:
      break;
    case 1:
      keep = std::move(f);
      break;
    case 2: {
      pc::future<T> other(std::move(f));
      keep = std::move(other);
      break;
    }
    case 3:
      skeep = f.share();
      break;
    case 4:
      skeep = pc::shared_future<T>(std::move(f));
      break;
    case 5:
      set_id<T>(p, 1);
      get_outcome(f);
      break;
    case 6:
      p.set_exception(err(1));
      get_outcome(f);
      break;
    case 7:
      vkeep = f.then([](pc::future<T>) {});
      break;
    case 8:
      vkeep = f.next(nf<T>::make(mc::ghost()));
      break;
    case 9:
      keep = f.detach();
      break;
    case 10:
      f = pc::future<T>();
      break;
    case 11: // not empty
      set_id<T>(p, 1);
      empty = false;
      runs = op >= 5 && op < 15;
      break;
    }
    CHECK(f.valid() == !empty, "way %d", how);
    const int got = common_op<T>(f, op, ran);
    CHECK(got == (empty ? NO_STATE : 1), "operation %d on a future emptied in way %d: %d", op, how, got);
    CHECK(ran.peek() == (long)runs, "operation %d on a future emptied in way %d: the function ran %ld times", op, how, ran.peek());
    CHECK(!(empty && f.valid()));
    // everything else is as before
    if (how >= 1 && how != 5 && how != 6 && how != 10 && how != 11) {
      CHECK(p.is_awaiten(), "operation %d, way %d", op, how);
      set_id<T>(p, 2);
      if (keep.valid())
        CHECK(get_outcome(keep) == vid<T>(2));
      if (skeep.valid())
        CHECK(get_outcome(skeep) == vid<T>(2));
      if (vkeep.valid())
        CHECK(outcome_of([&] {
          vkeep.get();
          return 1;
        }) == 1);
    }
    CHECK(ran.peek() == (long)runs);
  }
  NO_TRACKED_LEFT();
}
template <typename T> static void empty_shared() {
  init();
  {
    const int op = mc::choose(N_COMMON), how = mc::choose(8);
    mc::ghost ran;
    pc::promise<T> p;
    pc::shared_future<T> f, keep;
    bool empty = true, runs = false;
    if (how >= 2)
      f = p.get_future().share();
    switch (how) {
    case 0:
      break;
    case 1: {
      pc::future<T> none;
      f = none.share();
      break;
    }
    case 2:
      keep = std::move(f);
      break;
    case 3: {
      pc::shared_future<T> other(std::move(f));
      keep = other;
      break;
    }
    case 4:
      keep = f.detach();
      break;
    case 5: {
      keep = f;
      f = pc::shared_future<T>();
      break;
    }
    case 6: { // copies of an empty one
      pc::shared_future<T> none;
      keep = std::move(f);
      f = none;
      break;
    }
    case 7:
      set_id<T>(p, 1);
      empty = false;
      runs = op >= 5 && op < 15;
      break;
    }
    CHECK(f.valid() == !empty, "way %d", how);
    const int got = common_op<T>(f, op, ran);
    CHECK(got == (empty ? NO_STATE : 1), "operation %d on a shared_future emptied in way %d: %d", op, how, got);
    CHECK(ran.peek() == (long)runs, "operation %d on a shared_future emptied in way %d: the function ran %ld times", op, how, ran.peek());
    CHECK(!(empty && f.valid()));
    if (keep.valid()) {
      CHECK(p.is_awaiten(), "operation %d, way %d", op, how);
      CHECK(!keep.is_ready());
      set_id<T>(p, 2);
      CHECK(get_outcome(keep) == vid<T>(2));
    }
    CHECK(ran.peek() == (long)runs);
  }
  NO_TRACKED_LEFT();
}
template <typename T> static void empty_promise() {
  init();
  {
    const int op = mc::choose(4), how = mc::choose(3), state = mc::choose(3);
    pc::promise<T> p;
    pc::future<T> f;
    if (state == 1)
      f = p.get_future();
    if (state == 2)
      set_id<T>(p, 1);
    pc::promise<T> q(std::move(p));
    if (how == 1)
      p = std::move(q), std::swap(p, q);
    if (how == 2) {
      pc::promise<T> r(std::move(q));
      q = std::move(r);
      CHECK(outcome_of([&] { return (int)r.is_awaiten(); }) == NO_STATE);
    }
    const int got = outcome_of([&]() -> int {
      switch (op) {
      case 0:
        set_id<T>(p, 2);
        return 1;
      case 1:
        p.set_exception(err(2));
        return 1;
      case 2: {
        auto g = p.get_future();
        return 1;
      }
      default:
        return (int)p.is_awaiten() * 0 + 1;
      }
    });
    CHECK(got == NO_STATE, "operation %d on a promise emptied in way %d: %d", op, how, got);
    if (state != 1)
      f = q.get_future();
    CHECK(f.is_ready() == (state == 2));
    if (state != 2)
      set_id<T>(q, 3);
    CHECK(get_outcome(f) == vid<T>(state == 2 ? 1 : 3));
  }
  NO_TRACKED_LEFT();
}
#define EMPTY(T, n)                                                                                                    \
  SCENARIO(C19, empty_future_##n) { empty_future<T>(); }                                                               \
  SCENARIO(C19, empty_shared_##n) { empty_shared<T>(); }                                                               \
  SCENARIO(C19, empty_promise_##n) { empty_promise<T>(); }
EMPTY(int, int)
EMPTY(void, void)
EMPTY(int &, ref)
EMPTY(Tracked, tracked)
EMPTY(uptr, uptr)
