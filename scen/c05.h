// C05: continuation chains carry values and exceptions faithfully.
#include "common.h"

template <typename T> static void complete(pc::promise<T> &p, int how) {
  if (how == 0)
    set_id<T>(p, 1);
  else if (how == 1)
    p.set_exception(err(2));
  else {
    pc::promise<T> gone(std::move(p));
  }
}
template <typename T> static int parent_outcome(int how) { return how == 0 ? vid<T>(1) : how == 1 ? EXC - 2 : BROKEN; }

template <typename R> static R result(bool throws) {
  if (throws)
    throw test_error{4};
  return kind<R>::make(3);
}
template <typename R> static int want_result(bool throws) { return throws ? EXC - 4 : vid<R>(3); }

struct Seen {
  mc::ghost runs, arg;
};

// functions given to next()
template <typename R, typename T, bool SH> struct NextFn {
  Seen s;
  bool throws;
  Tracked cap;
  R operator()(T v) {
    CHECK(cap.get() == 55);
    s.runs.bump();
    s.arg.poke(kind<T>::id(v));
    return result<R>(throws);
  }
};
template <typename R, typename T> struct NextFn<R, T, true> {
  Seen s;
  bool throws;
  Tracked cap;
  R operator()(const T &v) {
    CHECK(cap.get() == 55);
    s.runs.bump();
    s.arg.poke(kind<T>::id(v));
    return result<R>(throws);
  }
};
template <typename R, typename T> struct NextFn<R, T &, true> {
  Seen s;
  bool throws;
  Tracked cap;
  R operator()(T &v) {
    CHECK(cap.get() == 55);
    s.runs.bump();
    s.arg.poke(kind<T &>::id(v));
    return result<R>(throws);
  }
};
template <typename R, bool SH> struct NextFn<R, void, SH> {
  Seen s;
  bool throws;
  Tracked cap;
  R operator()() {
    CHECK(cap.get() == 55);
    s.runs.bump();
    s.arg.poke(0);
    return result<R>(throws);
  }
};
template <typename R> struct NextFn<R, void, true> : NextFn<R, void, false> {};

template <typename R, typename Fut> struct ThenFn {
  Seen s;
  bool throws;
  Tracked cap;
  R operator()(Fut f) {
    CHECK(cap.get() == 55);
    s.runs.bump();
    CHECK(f.valid() && f.is_ready());
    s.arg.poke(get_outcome(f));
    return result<R>(throws);
  }
};
template <typename R, typename Fut> struct IThenFn {
  Seen s;
  bool throws;
  Tracked cap;
  void operator()(pc::promise<R> p, Fut f) {
    CHECK(cap.get() == 55);
    s.runs.bump();
    CHECK(f.valid() && f.is_ready());
    s.arg.poke(get_outcome(f));
    if (throws)
      p.set_exception(err(4));
    else
      set_id<R>(p, 3);
  }
};

// one stage: all combinations of operation, executor, outcome of the parent, outcome of the function, order
template <typename T, bool SH, typename R> static void stage() {
  using Fut = std::conditional_t<SH, pc::shared_future<T>, pc::future<T>>;
  const int op = mc::choose(3), ex = mc::choose(2), how = mc::choose(3), when = mc::choose(3);
  const bool throws = mc::choose(2);
  Queue q;
  {
    auto x = pc::make_promise<T>();
    Fut f(std::move(x.second));
    Fut keep;
    Seen s;
    if (when == 1)
      complete(x.first, how);
    pc::future<R> g;
    Tracked cap(55);
    if (SH && when != 2)
      keep = Fut(std::move(f)), f = std::move(keep), keep = Fut();
    if (op == 0) {
      if (ex)
        g = f.then(qexec{&q}, ThenFn<R, Fut>{s, throws, cap});
      else
        g = f.then(ThenFn<R, Fut>{s, throws, cap});
    } else if (op == 1) {
      if (ex)
        g = f.next(qexec{&q}, NextFn<R, T, SH>{s, throws, cap});
      else
        g = f.next(NextFn<R, T, SH>{s, throws, cap});
    } else {
      if (ex)
        g = f.then(qexec{&q}, IThenFn<R, Fut>{s, throws, cap});
      else
        g = f.then(IThenFn<R, Fut>{s, throws, cap});
    }
    CHECK(g.valid());
    if (!SH)
      CHECK(!f.valid(), "the parent future stays valid");
    else if (op != 2)
      CHECK(f.valid(), "the shared parent became invalid");
    if (when == 0)
      complete(x.first, how);
    else if (when == 2) { // completed in another thread, which runs alone from here on
      thr t([&] { complete(x.first, how); });
    }
    if (ex)
      q.run_all();
    CHECK(g.is_ready());
    const int po = parent_outcome<T>(how);
    const bool called = op != 1 || how == 0;
    CHECK(s.runs.peek() == (called ? 1 : 0), "(function ran %ld times)", s.runs.peek());
    if (called)
      CHECK(s.arg.peek() == po, "(function saw %ld, parent has %d)", s.arg.peek(), po);
    const int o = get_outcome(g);
    CHECK(o == (called ? want_result<R>(throws) : po), "(got %d)", o);
    if (SH && op != 2)
      CHECK(get_outcome(f) == po, "the shared parent was modified");
  }
  CHECK(q.q.empty());
}
template <typename T, bool SH> static void stage_all() {
  init();
  switch (mc::choose(5)) {
  case 0:
    stage<T, SH, int>();
    break;
  case 1:
    stage<T, SH, uptr>();
    break;
  case 2:
    stage<T, SH, int &>();
    break;
  case 3:
    stage<T, SH, void>();
    break;
  case 4:
    stage<T, SH, Tracked>();
    break;
  }
  NO_TRACKED_LEFT();
}
