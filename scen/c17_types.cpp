// C17: a callable is put into the box and moved with it by its copy and move constructors only - also if braces, an
// operator new or an operator& of its class mean something else.
#include "common.h"
#include <portable_concurrency/functional>

template <int Pad> struct ListFn { // as json: braces build a list of the object
  int id;
  int depth = 0;
  char pad[Pad] = {};
  explicit ListFn(int i) : id(i) {}
  ListFn(const ListFn &) = default;
  ListFn(ListFn &&r) noexcept : id(r.id), depth(r.depth) { r.id = -1; }
  ListFn(std::initializer_list<ListFn> l) : id(l.begin()->id), depth(l.begin()->depth + 1) {}
  int operator()(int v) {
    CHECK(depth == 0, "the callable was wrapped %d times", depth);
    return id * 10 + v;
  }
};
template <int Pad> struct AnyFn { // as any: braces and tuples of arguments build something else
  int id;
  char pad[Pad] = {};
  explicit AnyFn(int i) : id(i) {}
  AnyFn(const AnyFn &) = default;
  AnyFn(AnyFn &&r) noexcept : id(r.id) { r.id = -1; }
  struct sink {
    template <typename U> sink(U &&) {}
  };
  AnyFn(std::initializer_list<sink>) : id(-2) {}
  int operator()(int v) { return id * 10 + v; }
};
template <int Pad> struct NewFn {
  int id;
  char pad[Pad] = {};
  explicit NewFn(int i) : id(i) {}
  NewFn(const NewFn &) = default;
  NewFn(NewFn &&r) noexcept : id(r.id) { r.id = -1; }
  int operator()(int v) { return id * 10 + v; }
  NewFn *operator&() { mc::fail("overloaded operator& used"); }
  const NewFn *operator&() const { mc::fail("overloaded operator& used"); }
  static void *operator new(std::size_t n) { return ::operator new(n); }
  static void operator delete(void *p) { ::operator delete(p); }
};
template <typename Fn> static void boxed() {
  init();
  using U = pc::unique_function<int(int)>;
  const Fn c(3);
  Fn m(3);
  U a = mc::choose(2) ? U(c) : U(std::move(m));
  U b = mc::choose(2) ? U(Fn(4)) : U();
  int va = 3, vb = b ? 4 : 0;
  for (int i = 0; i < 3; i++) {
    switch (mc::choose(5)) {
    case 0: {
      U t(std::move(a));
      a = std::move(t);
      break;
    }
    case 1:
      std::swap(a, b);
      std::swap(va, vb);
      break;
    case 2:
      b = std::move(a);
      vb = va;
      a = U(c);
      va = 3;
      break;
    case 3:
      a = U(Fn(5));
      va = 5;
      break;
    case 4:
      if (!a)
        mc::discard();
      CHECK(a(1) == va * 10 + 1);
      break;
    }
    CHECK((bool)a == (va != 0) && (bool)b == (vb != 0));
    if (a)
      CHECK(a(2) == va * 10 + 2);
    if (b)
      CHECK(b(2) == vb * 10 + 2);
  }
  CHECK(c.id == 3);
}
// everywhere else the library stores functions
template <typename Fn> static void stored() {
  init();
  const int how = mc::choose(7), lv = mc::choose(2);
  Fn fn(3);
  mc::ghost calls;
  auto p = pc::make_promise<int>();
  Queue q;
  switch (how) {
  case 0: {
    auto f = lv ? p.second.next(fn) : p.second.next(Fn(3));
    p.first.set_value(1);
    CHECK(f.get() == 31);
    break;
  }
  case 1: {
    auto f = lv ? p.second.next(qexec{&q}, fn) : p.second.next(qexec{&q}, Fn(3));
    p.first.set_value(1);
    q.run_all();
    CHECK(f.get() == 31);
    break;
  }
  case 2: {
    auto s = p.second.share();
    auto f = lv ? s.next(fn) : s.next(Fn(3));
    p.first.set_value(1);
    CHECK(f.get() == 31);
    break;
  }
  case 3: {
    pc::packaged_task<int(int)> t = lv ? pc::packaged_task<int(int)>(fn) : pc::packaged_task<int(int)>(Fn(3));
    auto f = t.get_future();
    pc::packaged_task<int(int)> u(std::move(t));
    u(1);
    CHECK(f.get() == 31);
    break;
  }
  case 4: {
    auto f = lv ? pc::async(qexec{&q}, fn, 1) : pc::async(qexec{&q}, Fn(3), 1);
    q.run_all();
    CHECK(f.get() == 31);
    break;
  }
  default: { // cancel action and notification
    struct Act {
      Fn fn;
      mc::ghost calls;
      void operator()() {
        CHECK(fn(1) == 31);
        calls.bump();
      }
    };
    Act act{fn, calls};
    if (how == 5) {
      auto x = lv ? pc::make_promise<int>(pc::canceler_arg, act) : pc::make_promise<int>(pc::canceler_arg, Act{Fn(3), calls});
      x.second = pc::future<int>();
    } else {
      if (lv)
        p.second.notify(act);
      else
        p.second.notify(Act{Fn(3), calls});
      p.first.set_value(1);
    }
    CHECK(calls.peek() == 1);
  }
  }
  CHECK(fn.id == 3);
}
// the cancel action itself is such an object
template <typename Base> struct Thunk : Base {
  mc::ghost calls;
  Thunk(mc::ghost g) : Base(3), calls(g) {}
  Thunk(const Thunk &) = default;
  Thunk(Thunk &&) = default;
  Thunk(std::initializer_list<Thunk> l) : Base(-7), calls(l.begin()->calls) {}
  void operator()() {
    CHECK(Base::operator()(1) == 31);
    calls.bump();
  }
};
template <typename Fn> static void thunks() {
  init();
  using A = Thunk<Fn>;
  const int how = mc::choose(4), lv = mc::choose(2);
  mc::ghost calls;
  {
    A act(calls);
    if (how == 0) {
      auto x = lv ? pc::make_promise<int>(pc::canceler_arg, act) : pc::make_promise<int>(pc::canceler_arg, A(calls));
      x.second = pc::future<int>();
    } else if (how == 1) {
      auto x = pc::make_promise<int>();
      if (lv)
        x.second.notify(act);
      else
        x.second.notify(A(calls));
      x.first.set_value(1);
    } else if (how == 2) {
      Queue q;
      auto x = pc::make_promise<int>();
      if (lv)
        x.second.notify(qexec{&q}, act);
      else
        x.second.notify(qexec{&q}, A(calls));
      x.first.set_value(1);
      q.run_all();
    } else {
      pc::unique_function<void()> f = lv ? pc::unique_function<void()>(act) : pc::unique_function<void()>(A(calls));
      pc::unique_function<void()> g(std::move(f));
      g();
    }
  }
  CHECK(calls.peek() == 1);
}
#define ALL(n, F)                                                                                                      \
  SCENARIO(C17, boxed_##n) { boxed<F<1>>(); }                                                                          \
  SCENARIO(C17, boxed_large_##n) { boxed<F<200>>(); }                                                                  \
  SCENARIO(C17, stored_##n) { stored<F<1>>(); }                                                                        \
  SCENARIO(C17, thunk_##n) { thunks<F<1>>(); }
ALL(list, ListFn)
ALL(any, AnyFn)
ALL(new, NewFn)
