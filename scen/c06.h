// C06: a future of a future behaves as the inner future.
#include "common.h"

template <typename T, bool SH> using inner_t = std::conditional_t<SH, pc::shared_future<T>, pc::future<T>>;

// inner outcome
enum { IN_VALUE, IN_EXC, IN_BROKEN, IN_INVALID, IN_THROW, N_IN };
template <typename T> static void complete(pc::promise<T> &p, int how) {
  if (how == IN_VALUE)
    set_id<T>(p, 1);
  else if (how == IN_EXC)
    p.set_exception(err(2));
  else {
    pc::promise<T> gone(std::move(p));
  }
}
template <typename T> static int want(int how) {
  return how == IN_VALUE ? vid<T>(1) : how == IN_EXC ? EXC - 2 : how == IN_THROW ? EXC - 6 : BROKEN;
}
// the function whose result is unwrapped
template <typename T, bool SH> struct Fn {
  inner_t<T, SH> in;
  int how;
  mc::ghost runs;
  Tracked cap{55};
  inner_t<T, SH> go() {
    CHECK(cap.get() == 55);
    runs.bump();
    if (how == IN_THROW)
      throw test_error{6};
    if (how == IN_INVALID)
      return {};
    return std::move(in);
  }
  inner_t<T, SH> operator()() { return go(); }
};
template <typename T, bool SH> struct FnI : Fn<T, SH> {
  inner_t<T, SH> operator()(int v) {
    CHECK(v == 9);
    return this->go();
  }
};
template <typename T, bool SH> struct FnCI : Fn<T, SH> {
  inner_t<T, SH> operator()(const int &v) {
    CHECK(v == 9);
    return this->go();
  }
};
template <typename T, bool SH> struct FnF : Fn<T, SH> {
  inner_t<T, SH> operator()(pc::future<int> v) {
    CHECK(v.get() == 9);
    return this->go();
  }
};
template <typename T, bool SH> struct FnS : Fn<T, SH> {
  inner_t<T, SH> operator()(pc::shared_future<int> v) {
    CHECK(v.get() == 9);
    return this->go();
  }
};
// outer mechanism, the outer part being started by start()
enum { OUT_TASK, OUT_ASYNC, OUT_NEXT, OUT_THEN, OUT_SNEXT, OUT_STHEN, OUT_VNEXT, OUT_SVNEXT, OUT_THEN_EXEC, N_OUT };
template <typename T, bool SH> struct Outer {
  pc::packaged_task<inner_t<T, SH>()> task;
  pc::promise<int> p;
  pc::promise<void> pv;
  Queue q;
  int out;
  inner_t<T, SH> f;

  Outer(int o, inner_t<T, SH> in, int how, mc::ghost runs) : p(pc::make_promise<int>().first), pv(pc::make_promise<void>().first), out(o) {
    auto x = pc::make_promise<int>();
    auto v = pc::make_promise<void>();
    p = std::move(x.first);
    pv = std::move(v.first);
    Fn<T, SH> fn{std::move(in), how, runs};
    switch (out) {
    case OUT_TASK:
      task = pc::packaged_task<inner_t<T, SH>()>(std::move(fn));
      f = task.get_future();
      break;
    case OUT_ASYNC:
      f = pc::async(qexec{&q}, std::move(fn));
      break;
    case OUT_NEXT:
      f = x.second.next(FnI<T, SH>{std::move(fn)});
      break;
    case OUT_THEN:
      f = x.second.then(FnF<T, SH>{std::move(fn)});
      break;
    case OUT_SNEXT:
      f = x.second.share().next(FnCI<T, SH>{std::move(fn)});
      break;
    case OUT_STHEN:
      f = x.second.share().then(FnS<T, SH>{std::move(fn)});
      break;
    case OUT_VNEXT:
      f = v.second.next(std::move(fn));
      break;
    case OUT_SVNEXT:
      f = v.second.share().next(std::move(fn));
      break;
    case OUT_THEN_EXEC:
      f = x.second.then(qexec{&q}, FnF<T, SH>{std::move(fn)});
      break;
    }
  }
  void start() {
    switch (out) {
    case OUT_TASK:
      task();
      break;
    case OUT_ASYNC:
      q.run_all();
      break;
    case OUT_VNEXT:
    case OUT_SVNEXT:
      pv.set_value();
      break;
    default:
      p.set_value(9);
      q.run_all();
      break;
    }
  }
  // the outer producer goes away; everything it had to do is done
  void drop_producer() {
    pc::packaged_task<inner_t<T, SH>()> t(std::move(task));
    pc::promise<int> a(std::move(p));
    pc::promise<void> b(std::move(pv));
  }
};
// single-threaded: all combinations and all orders
template <typename T, bool SH> static void orders() {
  init();
  {
    const int out = mc::choose(N_OUT), how = mc::choose(N_IN);
    const bool has_inner = how <= IN_BROKEN;
    const bool inner_first = has_inner && mc::choose(2);
    const bool drop = mc::choose(2), attach = mc::choose(2);
    mc::ghost runs, notified;
    auto in = pc::make_promise<T>();
    Outer<T, SH> o(out, inner_t<T, SH>(std::move(in.second)), how, runs);
    if (attach)
      o.f.notify([notified] { notified.bump(); });
    CHECK(!o.f.is_ready());
    if (inner_first) {
      complete(in.first, how);
      CHECK(!o.f.is_ready(), "outer ready before its function ran");
    }
    o.start();
    CHECK(runs.peek() == 1);
    if (drop)
      o.drop_producer();
    if (has_inner && !inner_first) {
      CHECK(!o.f.is_ready(), "outer ready before the inner future");
      CHECK(in.first.is_awaiten(), "the inner future was dropped");
      complete(in.first, how);
    }
    CHECK(o.f.is_ready(), "outer not ready although the inner future is");
    if (attach)
      CHECK(notified.peek() == 1);
    const int r = get_outcome(o.f);
    CHECK(r == want<T>(how), "(got %d want %d)", r, want<T>(how));
    if (SH)
      CHECK(get_outcome(o.f) == r);
  }
  NO_TRACKED_LEFT();
}
// inner completion, outer function and observer in three threads
template <typename T, bool SH> static void race(int out, int hows) {
  init();
  {
    const int how = mc::choose(hows);
    const bool drop = mc::choose(2);
    mc::ghost runs, done, started;
    auto in = pc::make_promise<T>();
    Outer<T, SH> o(out, inner_t<T, SH>(std::move(in.second)), how, runs);
    inner_t<T, SH> f = std::move(o.f);
    thr a([&o, drop, started] {
      started.set(1);
      o.start();
      if (drop)
        o.drop_producer();
    });
    thr b([p = std::move(in.first), how, done]() mutable {
      done.set(1);
      complete(p, how);
    });
    const int r = get_outcome(f);
    CHECK(started.get() == 1 && done.get() == 1, "outer future ready too early");
    CHECK(r == want<T>(how), "(got %d want %d)", r, want<T>(how));
    CHECK(runs.peek() == 1);
  }
  NO_TRACKED_LEFT();
}
