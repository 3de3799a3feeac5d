// C01: delivering a result constructs nothing but copies and moves of it - also for types on which other forms of
// construction mean something else (initializer lists, catch-all constructors, overloaded operators).
#include "common.h"

// Like json or vector<any>: an object in braces is a list that holds the object.
struct Listy {
  int id;
  int depth = 0;
  explicit Listy(int i) : id(i) {}
  Listy(const Listy &r) = default;
  Listy(Listy &&r) noexcept : id(r.id), depth(r.depth) { r.id = -1; }
  Listy(std::initializer_list<Listy> l) : id(l.size() ? l.begin()->id : 0), depth(1 + (l.size() ? l.begin()->depth : 0)) {}
  Listy &operator=(const Listy &) = default;
  Listy &operator=(Listy &&) = default;
};
// Like any or function: can be made of everything, itself included.
struct Greedy {
  int id;
  int wraps = 0;
  explicit Greedy(int i) : id(i) {}
  Greedy(const Greedy &) = default;
  Greedy(Greedy &&r) noexcept : id(r.id), wraps(r.wraps) { r.id = -1; }
  template <typename U, typename = std::enable_if_t<!std::is_same<std::decay_t<U>, Greedy>::value && !std::is_same<std::decay_t<U>, int>::value>> Greedy(U &&) : id(-2), wraps(1) {}
  template <typename U, typename V> Greedy(U &&, V &&) : id(-3), wraps(1) {}
  Greedy &operator=(const Greedy &) = default;
  Greedy &operator=(Greedy &&) = default;
};
// The address and the comma are taken: only std::addressof and void casts are safe.
struct Hostile {
  int id;
  explicit Hostile(int i) : id(i) {}
  Hostile(const Hostile &) = default;
  Hostile(Hostile &&r) noexcept : id(r.id) { r.id = -1; }
  Hostile &operator=(const Hostile &) = default;
  Hostile &operator=(Hostile &&) = default;
  Hostile *operator&() { mc::fail("overloaded operator& of the result used"); }
  const Hostile *operator&() const { mc::fail("overloaded operator& of the result used"); }
  template <typename U> void operator,(U &&) const { mc::fail("overloaded comma of the result used"); }
  static void *operator new(std::size_t) { mc::fail("operator new of the result used"); }
  static void operator delete(void *) {}
};
static bool pristine(const Listy &x) { return x.depth == 0; }
static bool pristine(const Greedy &x) { return x.wraps == 0; }
static bool pristine(const Hostile &) { return true; }

template <typename T> static void delivered() {
  init();
  {
    const int how = mc::choose(13), shared = mc::choose(2), early = mc::choose(2);
    T v(7);
    const T c(7);
    pc::future<T> f;
    Queue q;
    pc::promise<T> p;
    pc::promise<T> in;
    std::function<void()> go = [] {};
    switch (how) {
    case 0:
      f = p.get_future();
      go = [&] { p.set_value(c); };
      break;
    case 1:
      f = p.get_future();
      go = [&] { p.set_value(std::move(v)); };
      break;
    case 2:
      f = pc::make_ready_future(c);
      break;
    case 3:
      f = pc::make_ready_future(std::move(v));
      break;
    case 4:
      f = pc::async(qexec{&q}, [] { return T(7); });
      go = [&] { q.run_all(); };
      break;
    case 5: // through an argument
      f = pc::async(qexec{&q}, [](T x) { return x; }, v);
      go = [&] { q.run_all(); };
      break;
    case 6:
      f = pc::async(qexec{&q}, [](T &&x) { return std::move(x); }, std::move(v));
      go = [&] { q.run_all(); };
      break;
    case 7: { // through a captured copy and a task argument
      auto t = std::make_shared<pc::packaged_task<T(T)>>([](T x) { return x; });
      f = t->get_future();
      go = [&, t] { (*t)(v); };
      break;
    }
    case 8:
      f = in.get_future().then([](pc::future<T> x) { return x.get(); });
      go = [&] { in.set_value(c); };
      break;
    case 9:
      f = in.get_future().next([](T x) { return x; });
      go = [&] { in.set_value(c); };
      break;
    case 10:
      f = in.get_future().share().next([](const T &x) { return x; });
      go = [&] { in.set_value(c); };
      break;
    case 11:
      f = in.get_future().next([](T x) { return pc::make_ready_future(std::move(x)); });
      go = [&] { in.set_value(c); };
      break;
    case 12:
      f = in.get_future().then([](pc::promise<T> r, pc::future<T> x) { r.set_value(x.get()); });
      go = [&] { in.set_value(c); };
      break;
    }
    if (early)
      go();
    if (shared) {
      pc::shared_future<T> s = f.share(), s2 = s;
      if (!early)
        go();
      const T &r = s.get();
      CHECK(r.id == 7 && pristine(r), "way %d: id %d", how, r.id);
      const T &r2 = s2.get();
      CHECK(std::addressof(r) == std::addressof(r2) && r2.id == 7);
    } else {
      if (!early)
        go();
      T r = f.get();
      CHECK(r.id == 7 && pristine(r), "way %d: id %d", how, r.id);
    }
    CHECK(c.id == 7 && pristine(c));
  }
}
SCENARIO(C01, listy) { delivered<Listy>(); }
SCENARIO(C01, greedy) { delivered<Greedy>(); }
SCENARIO(C01, hostile) { delivered<Hostile>(); }
