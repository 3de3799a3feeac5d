// Every way to produce a result against every way to observe it.
#pragma once
#include "common.h"

enum { C_MADE = 56, C_CANCELLED = 57 };
// M_STDEXC, M_FERR: other kinds of exceptions, among them one the library uses itself
enum { M_STDEXC, M_FERR, M_VALUE, M_EXC, M_BROKEN, M_HOWS };
template <typename T> static int m_want(int how) { return how == M_VALUE ? vid<T>(1) : how == M_EXC ? EXC - 2 : how == M_STDEXC ? EXC - 53 : how == M_FERR ? SATISFIED : BROKEN; }
inline void m_throw(int how) {
  if (how == M_EXC)
    throw test_error{2};
  if (how == M_STDEXC)
    throw std_error{3};
  if (how == M_FERR)
    throw std::future_error(std::future_errc::promise_already_satisfied);
}
template <typename T> static void m_complete(pc::promise<T> &p, int how) {
  if (how == M_VALUE)
    set_id<T>(p, 1);
  else if (how != M_BROKEN) {
    try {
      m_throw(how);
    } catch (...) {
      p.set_exception(std::current_exception());
    }
  } else {
    pc::promise<T> gone(std::move(p));
  }
}
// a function producing the result directly
template <typename T> struct MakeFn {
  int how;
  Tracked cap{55};
  T operator()() {
    ctr().v[C_MADE]++;
    CHECK(cap.get() == 55);
    m_throw(how);
    return kind<T>::make(1);
  }
};
template <> struct MakeFn<void> {
  int how;
  Tracked cap{55};
  void operator()() {
    ctr().v[C_MADE]++;
    CHECK(cap.get() == 55);
    m_throw(how);
  }
};
// an executor that keeps tasks until they are run or dropped
enum { MP_MAKE, MP_PROMISE, MP_ALLOC, MP_CANCELER, MP_TASK, MP_ASYNC, MP_NEXT, MP_THEN_EXEC, MP_INTERRUPTIBLE, MP_INTERRUPTIBLE_EXEC, MP_SINTERRUPTIBLE_EXEC, MP_DETACHED, MP_UTASK, MP_UNEXT, MP_UTHEN, MP_USHARED, MP_UVOID, MP_UNESTED, MP_N };
template <typename T> struct Prod {
  int kind_, how;
  MtQueue q{1};
  pc::promise<T> p{pc::make_promise<T>().first};
  pc::promise<int> outer{pc::make_promise<int>().first};
  pc::promise<void> vouter{pc::make_promise<void>().first};
  pc::packaged_task<T()> task;
  pc::packaged_task<pc::future<T>()> utask;
  pc::future<T> f;
  bool kept = false;

  bool dropping; // the future may be dropped at any time

  Prod(int k, int h, Arena *a, bool d = false) : kind_(k), how(h), dropping(d) {
    auto x = pc::make_promise<T>();
    auto y = pc::make_promise<int>();
    auto z = pc::make_promise<void>();
    outer = std::move(y.first);
    vouter = std::move(z.first);
    switch (k) {
    case MP_MAKE:
      break;
    case MP_PROMISE: {
      pc::promise<T> o;
      x.second = o.get_future();
      x.first = std::move(o);
      break;
    }
    case MP_ALLOC:
      x = pc::make_promise<T>(arena_alloc<char>(a));
      break;
    case MP_CANCELER:
      x = pc::make_promise<T>(pc::canceler_arg, [d] {
        CHECK(d, "cancel action although the result was supplied");
        ctr().v[C_CANCELLED]++;
      });
      break;
    case MP_TASK:
      task = pc::packaged_task<T()>(MakeFn<T>{h});
      x.second = task.get_future();
      break;
    case MP_ASYNC:
      x.second = pc::async(mtexec{&q}, MakeFn<T>{h});
      break;
    case MP_NEXT:
      x.second = y.second.next([fn = MakeFn<T>{h}](int v) mutable -> T {
        CHECK(v == 9);
        return fn();
      });
      break;
    case MP_THEN_EXEC:
      x.second = y.second.then(mtexec{&q}, [fn = MakeFn<T>{h}](pc::future<int> v) mutable -> T {
        CHECK(v.get() == 9);
        return fn();
      });
      break;
    case MP_INTERRUPTIBLE:
      x.second = y.second.then([this](pc::promise<T> r, pc::future<int> v) {
        CHECK(v.get() == 9);
        p = std::move(r);
        kept = true;
      });
      break;
    case MP_INTERRUPTIBLE_EXEC:
      x.second = y.second.then(mtexec{&q}, [this](pc::promise<T> r, pc::future<int> v) {
        CHECK(v.get() == 9);
        p = std::move(r);
        kept = true;
      });
      break;
    case MP_SINTERRUPTIBLE_EXEC:
      x.second = y.second.share().then(mtexec{&q}, [this](pc::promise<T> r, pc::shared_future<int> v) {
        CHECK(v.get() == 9);
        p = std::move(r);
        kept = true;
      });
      break;
    case MP_DETACHED:
      x.second = x.second.detach();
      break;
    case MP_UTASK:
      utask = pc::packaged_task<pc::future<T>()>([in = std::move(x.second)]() mutable { return std::move(in); });
      x.second = utask.get_future();
      break;
    case MP_UNEXT:
      x.second = y.second.next([in = std::move(x.second)](int) mutable { return std::move(in); });
      break;
    case MP_UTHEN:
      x.second = y.second.then(mtexec{&q}, [in = std::move(x.second)](pc::future<int>) mutable { return std::move(in); });
      break;
    case MP_USHARED:
      x.second = y.second.share().next([in = std::move(x.second)](const int &) mutable { return std::move(in); });
      break;
    case MP_UVOID:
      x.second = z.second.next([in = std::move(x.second)]() mutable { return std::move(in); });
      break;
    case MP_UNESTED: {
      pc::future<T> mid = z.second.next([in = std::move(x.second)]() mutable { return std::move(in); });
      x.second = y.second.next([mid = std::move(mid)](int) mutable { return std::move(mid); });
      break;
    }
    }
    if (k < MP_TASK || k >= MP_DETACHED)
      p = std::move(x.first);
    f = std::move(x.second);
  }
  // supplies everything but the result itself
  void prepare() {
    switch (kind_) {
    case MP_INTERRUPTIBLE:
    case MP_INTERRUPTIBLE_EXEC:
    case MP_SINTERRUPTIBLE_EXEC:
      outer.set_value(9);
      q.run_all();
      CHECK(kept || dropping);
      break;
    case MP_UTASK: {
      utask();
      pc::packaged_task<pc::future<T>()> gone(std::move(utask));
      break;
    }
    case MP_UNEXT:
    case MP_UTHEN:
    case MP_USHARED:
    case MP_UNESTED: {
      outer.set_value(9);
      q.run_all();
      pc::promise<int> gone(std::move(outer));
      break;
    }
    }
    if (kind_ == MP_UVOID || kind_ == MP_UNESTED)
      vouter.set_value();
  }
  // supplies the result
  void finish() {
    switch (kind_) {
    case MP_TASK:
      if (how == M_BROKEN)
        pc::packaged_task<T()> gone(std::move(task));
      else
        task();
      break;
    case MP_ASYNC:
      if (how == M_BROKEN) {
        auto gone = std::move(q.q);
        q.q.clear();
      } else
        q.run_all();
      break;
    case MP_NEXT:
      if (how == M_BROKEN)
        pc::promise<int> gone(std::move(outer));
      else
        outer.set_value(9);
      break;
    case MP_THEN_EXEC:
      outer.set_value(9);
      if (how == M_BROKEN) {
        auto gone = std::move(q.q);
        q.q.clear();
      } else
        q.run_all();
      break;
    default:
      m_complete(p, how);
    }
  }
};

// ---------------------------------------------------------------- observers
struct Seen1 {
  mc::ghost runs;
};
template <typename T, bool SH> struct ONext {
  mc::ghost n;
  int operator()(T v) {
    n.bump();
    return kind<T>::id(v) + 1000;
  }
};
template <typename T> struct ONext<T, true> {
  mc::ghost n;
  int operator()(const T &v) {
    n.bump();
    return kind<T>::id(v) + 1000;
  }
};
template <typename T> struct ONext<T &, true> {
  mc::ghost n;
  int operator()(T &v) {
    n.bump();
    return kind<T &>::id(v) + 1000;
  }
};
template <bool SH> struct ONext<void, SH> {
  mc::ghost n;
  int operator()() {
    n.bump();
    return 1000;
  }
};
template <> struct ONext<void, true> : ONext<void, false> {};
// the same, returning a future
template <typename T, bool SH> struct ONextU {
  ONext<T, SH> x;
  pc::future<int> operator()(T v) { return pc::make_ready_future(x(std::move(v))); }
};
template <typename T> struct ONextU<T, true> {
  ONext<T, true> x;
  pc::future<int> operator()(const T &v) { return pc::make_ready_future(x(v)); }
};
template <typename T> struct ONextU<T &, false> {
  ONext<T &, false> x;
  pc::future<int> operator()(T &v) { return pc::make_ready_future(x(v)); }
};
template <typename T> struct ONextU<T &, true> : ONextU<T &, false> {};
template <bool SH> struct ONextU<void, SH> {
  ONext<void, SH> x;
  pc::future<int> operator()() { return pc::make_ready_future(x()); }
};
template <> struct ONextU<void, true> : ONextU<void, false> {};

enum { MO_GET, MO_THEN, MO_NEXT, MO_UTHEN, MO_UNEXT, MO_ITHEN, MO_THEN_EXEC, MO_NEXT_EXEC, MO_ITHEN_EXEC, MO_CHAIN, MO_NOTIFY, MO_TIMED, MO_DETACH, MO_WHEN_ALL, MO_WHEN_ANY, MO_SGET, MO_STHEN, MO_SNEXT, MO_SUTHEN, MO_SUNEXT, MO_SITHEN, MO_SNEXT_EXEC, MO_SMANY, MO_SWHEN, MO_N };
template <typename T> struct Obs {
  int kind_;
  MtQueue q{2};
  pc::future<T> f;
  pc::shared_future<T> s;
  pc::future<int> r, r2, r3;
  pc::timed_waiter w;
  pc::promise<int> never{pc::make_promise<int>().first};
  pc::future<std::tuple<pc::future<T>, pc::future<int>>> all;
  pc::future<pc::when_any_result<std::tuple<pc::future<int>, pc::future<T>>>> any;
  pc::future<std::vector<pc::shared_future<T>>> sall;
  mc::ghost n, n2, notes;
  bool value_only = false; // n counts calls made for a value only

  explicit Obs(int k) : kind_(k) {}
  auto then() {
    return [c = n](pc::future<T> x) {
      c.bump();
      CHECK(x.valid() && x.is_ready());
      return get_outcome(x) + 1000;
    };
  }
  auto uthen() {
    return [c = n](pc::future<T> x) {
      c.bump();
      CHECK(x.is_ready());
      return pc::make_ready_future(get_outcome(x) + 1000);
    };
  }
  auto ithen() {
    return [c = n](pc::promise<int> p, pc::future<T> x) {
      c.bump();
      CHECK(x.is_ready());
      p.set_value(get_outcome(x) + 1000);
    };
  }
  auto sthen(mc::ghost g) {
    return [c = g](pc::shared_future<T> x) {
      c.bump();
      CHECK(x.valid() && x.is_ready());
      return get_outcome(x) + 1000;
    };
  }
  void attach(pc::future<T> x) {
    value_only = kind_ == MO_NEXT || kind_ == MO_UNEXT || kind_ == MO_NEXT_EXEC || kind_ == MO_CHAIN || kind_ == MO_SNEXT || kind_ == MO_SUNEXT || kind_ == MO_SNEXT_EXEC || kind_ == MO_SMANY;
    switch (kind_) {
    case MO_GET:
      f = std::move(x);
      break;
    case MO_THEN:
      r = x.then(then());
      break;
    case MO_NEXT:
      r = x.next(ONext<T, false>{n});
      break;
    case MO_UTHEN:
      r = x.then(uthen());
      break;
    case MO_UNEXT:
      r = x.next(ONextU<T, false>{{n}});
      break;
    case MO_ITHEN:
      r = x.then(ithen());
      break;
    case MO_THEN_EXEC:
      r = x.then(mtexec{&q}, then());
      break;
    case MO_NEXT_EXEC:
      r = x.next(mtexec{&q}, ONext<T, false>{n});
      break;
    case MO_ITHEN_EXEC:
      r = x.then(mtexec{&q}, ithen());
      break;
    case MO_CHAIN:
      r = x.next(ONext<T, false>{n}).next([](int v) { return pc::make_ready_future(v); }).next(mtexec{&q}, [](int v) { return v; }).then([](pc::future<int> v) { return v.get(); });
      break;
    case MO_NOTIFY:
      x.notify([c = n] { c.bump(); });
      x.notify(mtexec{&q}, [c = notes] { c.bump(); });
      f = std::move(x);
      break;
    case MO_TIMED:
      w = pc::timed_waiter(x);
      f = std::move(x);
      break;
    case MO_DETACH:
      f = x.detach();
      break;
    case MO_WHEN_ALL:
      all = pc::when_all(std::move(x), pc::make_ready_future(1));
      break;
    case MO_WHEN_ANY: {
      auto y = pc::make_promise<int>();
      never = std::move(y.first);
      any = pc::when_any(std::move(y.second), std::move(x));
      break;
    }
    default: {
      s = x.share();
      switch (kind_) {
      case MO_STHEN:
        r = s.then(sthen(n));
        break;
      case MO_SNEXT:
        r = s.next(ONext<T, true>{n});
        break;
      case MO_SUTHEN:
        r = s.then([c = n](pc::shared_future<T> y) {
          c.bump();
          return pc::make_ready_future(get_outcome(y) + 1000);
        });
        break;
      case MO_SUNEXT:
        r = s.next(ONextU<T, true>{{n}});
        break;
      case MO_SITHEN: {
        pc::shared_future<T> c = s;
        r = c.then([c = n](pc::promise<int> p, pc::shared_future<T> y) {
          c.bump();
          p.set_value(get_outcome(y) + 1000);
        });
        break;
      }
      case MO_SNEXT_EXEC:
        r = s.next(mtexec{&q}, ONext<T, true>{n});
        break;
      case MO_SMANY:
        r = s.next(ONext<T, true>{n});
        r2 = s.then(sthen(n2));
        r3 = s.next(mtexec{&q}, ONext<T, true>{n2});
        break;
      case MO_SWHEN: {
        std::vector<pc::shared_future<T>> v;
        v.push_back(s);
        v.push_back(s);
        sall = pc::when_all(std::move(v));
        break;
      }
      }
    }
    }
  }
  bool ready() {
    if (all.valid())
      return all.is_ready();
    if (any.valid())
      return any.is_ready();
    if (sall.valid())
      return sall.is_ready();
    if (r2.valid() && r2.is_ready() != r.is_ready())
      mc::fail("continuations of one result disagree");
    return r.valid() ? r.is_ready() : f.valid() ? f.is_ready() : s.is_ready();
  }
  void pending() {
    q.run_all();
    CHECK(!ready(), "ready before the result was supplied");
    CHECK(n.peek() == 0 && n2.peek() == 0 && notes.peek() == 0, "called before the result was supplied");
    if (kind_ == MO_TIMED)
      CHECK(w.wait_for(std::chrono::seconds(0)) == pc::future_status::timeout);
  }
  void drop() {
    f = {};
    s = {};
    r = {};
    r2 = {};
    r3 = {};
    all = {};
    any = {};
    sall = {};
  }
  bool calls() const { return kind_ != MO_GET && kind_ != MO_TIMED && kind_ != MO_DETACH && kind_ != MO_WHEN_ALL && kind_ != MO_WHEN_ANY && kind_ != MO_SGET && kind_ != MO_SWHEN; }
  // the result has been supplied: everything must be there
  void check(int want, bool value) {
    q.run_all();
    CHECK(ready(), "not ready although the result was supplied");
    if (kind_ == MO_TIMED)
      CHECK(w.wait_for(std::chrono::seconds(0)) == pc::future_status::ready);
    if (calls())
      CHECK(n.peek() == (value_only && !value ? 0 : 1), "called %ld times", n.peek());
    if (kind_ == MO_NOTIFY)
      CHECK(notes.peek() == 1);
    if (kind_ == MO_SMANY)
      CHECK(n2.peek() == (value ? 2 : 1));
    int o;
    if (kind_ == MO_WHEN_ALL) {
      auto t = all.get();
      o = get_outcome(std::get<0>(t));
      CHECK(std::get<1>(t).get() == 1);
    } else if (kind_ == MO_WHEN_ANY) {
      auto t = any.get();
      CHECK(t.index == 1 && !std::get<0>(t.futures).is_ready());
      o = get_outcome(std::get<1>(t.futures));
    } else if (kind_ == MO_SWHEN) {
      auto t = sall.get();
      CHECK(t.size() == 2 && get_outcome(t[0]) == want);
      o = get_outcome(t[1]);
      t.clear();
      CHECK(get_outcome(s) == want);
    } else if (r.valid()) {
      o = get_outcome(r);
      if (r2.valid()) {
        CHECK(get_outcome(r2) == want && get_outcome(r3) == want, "another continuation of the same result got something else");
      }
    } else if (f.valid())
      o = get_outcome(f);
    else
      o = get_outcome(s);
    CHECK(o == want, "(got %d want %d)", o, want);
    if (s.valid()) {
      CHECK(s.is_ready() && get_outcome(s) == want, "the shared result changed");
      CHECK(get_outcome(s) == want, "the shared result changed");
    }
  }
};
// producers pb..pe, results hb..he
template <typename T> static void matrix(int pb, int pe, int hb, int he) {
  init();
  Arena *a = make_arena(0);
  {
    const int k = pb + mc::choose(pe - pb), how = hb + mc::choose(he - hb), ok = mc::choose(MO_N), when = mc::choose(3);
    Prod<T> p(k, how, a);
    Obs<T> o(ok);
    if (when == 0)
      o.attach(std::move(p.f)), o.pending();
    p.prepare();
    if (when == 0)
      o.pending();
    if (when == 1)
      o.attach(std::move(p.f)), o.pending();
    p.finish();
    if (when == 2) {
      CHECK(p.f.is_ready());
      o.attach(std::move(p.f));
    }
    o.check(m_want<T>(how), how == M_VALUE);
  }
  CHECK(a->blocks == 0);
  NO_TRACKED_LEFT();
}
// attaching races with supplying
template <typename T> static void matrix_race(int pb, int pe, int hb, int he, int ob, int oe) {
  init();
  Arena *a = make_arena(0);
  {
    const int k = pb + mc::choose(pe - pb), how = hb + mc::choose(he - hb), ok = ob + mc::choose(oe - ob);
    Prod<T> p(k, how, a);
    Obs<T> o(ok);
    {
      pc::future<T> f = std::move(p.f);
      thr t([&p] {
        p.prepare();
        p.finish();
      });
      o.attach(std::move(f));
    }
    o.check(m_want<T>(how), how == M_VALUE);
  }
  CHECK(a->blocks == 0);
  NO_TRACKED_LEFT();
}
// dropping everything attached races with supplying
template <typename T> static void matrix_drop(int pb, int pe, int hb, int he, int ob, int oe) {
  init();
  Arena *a = make_arena(0);
  {
    const int k = pb + mc::choose(pe - pb), how = hb + mc::choose(he - hb), ok = ob + mc::choose(oe - ob);
    Prod<T> p(k, how, a, true);
    Obs<T> o(ok);
    mc::ghost dropped, begun, done;
    o.attach(std::move(p.f));
    bool late, early;
    {
      thr t([&] {
        late = done.get();
        o.drop();
        dropped.set(1);
      });
      early = dropped.get();
      p.prepare();
      p.finish();
      done.set(1);
    }
    const long runs = o.n.peek();
    CHECK(runs <= 1 && o.notes.peek() <= 1 && o.n2.peek() <= 2 && ctr().v[C_MADE] <= 1, "called more than once");
    CHECK(ctr().v[C_CANCELLED] <= 1);
    const bool detached = k == MP_DETACHED || ok == MO_DETACH;
    // a dropped combinator keeps its inputs awaited until they are ready
    const bool comb = ok == MO_WHEN_ALL || ok == MO_WHEN_ANY || ok == MO_SWHEN;
    if (early && ok != MO_NOTIFY) {
      CHECK(runs == 0 && o.n2.peek() == 0, "continuation called although it was dropped before the result was supplied");
      if (!detached && !comb)
        CHECK(ctr().v[C_MADE] == 0, "function run although nobody awaited its result any more");
      if (k == MP_CANCELER && !detached && !comb)
        CHECK(ctr().v[C_CANCELLED] == 1, "cancel action not called");
    }
    if (detached || late) {
      if (k == MP_TASK || k == MP_ASYNC || k == MP_NEXT || k == MP_THEN_EXEC)
        CHECK(ctr().v[C_MADE] == (how != M_BROKEN), "function not run although its result was awaited");
      CHECK(ctr().v[C_CANCELLED] == 0, "cancel action although the result was supplied");
    }
    if (late && o.calls() && ok != MO_THEN_EXEC && ok != MO_NEXT_EXEC && ok != MO_ITHEN_EXEC && ok != MO_SNEXT_EXEC)
      CHECK(runs == (o.value_only && how != M_VALUE ? 0 : 1), "called %ld times although dropped after the result was supplied", runs);
    o.q.run_all(); // what is still there is not awaited any more
    if (!o.notes.peek() || late)
      CHECK(o.n.peek() == runs, "continuation called although nobody awaited it");
    if (how != M_BROKEN && k < MP_TASK && ok != MO_WHEN_ANY)
      CHECK(!p.p.is_awaiten());
  }
  CHECK(a->blocks == 0);
  NO_TRACKED_LEFT();
}
