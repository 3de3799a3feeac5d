// C01: a future delivers exactly the result its producer supplied.
#include "common.h"

struct Big {
  long a[40];
};
template <> struct kind<Big> {
  static constexpr const char *name = "big";
  static Big make(int i) {
    Big b;
    for (int k = 0; k < 40; k++)
      b.a[k] = i * 1000 + k;
    return b;
  }
  static int id(const Big &b) {
    int i = static_cast<int>(b.a[0] / 1000);
    for (int k = 0; k < 40; k++)
      if (b.a[k] != i * 1000 + k)
        return -1;
    return i;
  }
};

// ------------------------------------------------------------ ways to produce
enum { N_SRC = 6 };
template <typename T> struct pf {
  pc::promise<T> p;
  pc::future<T> f;
};
template <typename T> pf<T> source(int s, Arena *a) {
  switch (s) {
  case 0: {
    auto x = pc::make_promise<T>();
    return {std::move(x.first), std::move(x.second)};
  }
  case 1: {
    pc::promise<T> p;
    auto f = p.get_future();
    return {std::move(p), std::move(f)};
  }
  case 2: {
    auto x = pc::make_promise<T>(arena_alloc<char>(a));
    return {std::move(x.first), std::move(x.second)};
  }
  case 3: {
    pc::promise<T> p(std::allocator_arg, arena_alloc<char>(a));
    auto f = p.get_future();
    return {std::move(p), std::move(f)};
  }
  case 4: {
    auto x = pc::make_promise<T>(pc::canceler_arg, [] { mc::fail("cancel action although the result was supplied"); });
    return {std::move(x.first), std::move(x.second)};
  }
  default: {
    pc::promise<T> p(pc::canceler_arg, [] { mc::fail("cancel action although the result was supplied"); });
    auto f = p.get_future();
    return {std::move(p), std::move(f)};
  }
  }
}
template <typename T> struct lvalue_set {
  static void go(pc::promise<T> &p, int i) {
    const T v = kind<T>::make(i);
    p.set_value(v);
    CHECK(kind<T>::id(v) == i);
    T w = kind<T>::make(i);
    (void)w;
  }
};
template <> struct lvalue_set<uptr> {
  static void go(pc::promise<uptr> &p, int i) { p.set_value(kind<uptr>::make(i)); }
};
template <> struct lvalue_set<int &> {
  static void go(pc::promise<int &> &p, int i) { p.set_value(kind<int &>::make(i)); }
};
template <> struct lvalue_set<void> {
  static void go(pc::promise<void> &p, int) { p.set_value(); }
};
template <typename T> int supply(pc::promise<T> &p, int how) {
  switch (how) {
  case 0:
    set_id<T>(p, 3);
    return vid<T>(3);
  case 1:
    lvalue_set<T>::go(p, 4);
    return vid<T>(4);
  default:
    p.set_exception(err(5));
    return EXC - 5;
  }
}
// ------------------------------------------------------------ ways to consume
template <typename T> struct same_object {
  static const void *addr(const pc::shared_future<T> &f) {
    try {
      return &f.get();
    } catch (...) {
      return nullptr;
    }
  }
};
template <> struct same_object<void> {
  static const void *addr(const pc::shared_future<void> &) { return nullptr; }
};
template <typename T> void consume(pc::future<T> &f, int want, int how) {
  switch (how) {
  case 0: {
    CHECK(f.valid());
    int o = get_outcome(f);
    CHECK(o == want, "(got %d want %d)", o, want);
    CHECK(!f.valid());
    CHECK(outcome_of([&] { f.wait(); return 0; }) == NO_STATE);
    break;
  }
  case 1: {
    f.wait();
    CHECK(f.valid() && f.is_ready());
    pc::future<T> g(std::move(f));
    CHECK(!f.valid() && g.valid());
    pc::future<T> h;
    h = std::move(g);
    CHECK(!g.valid() && h.is_ready());
    int o = get_outcome(h);
    CHECK(o == want, "(got %d want %d)", o, want);
    CHECK(!h.valid());
    break;
  }
  case 2: {
    pc::shared_future<T> s = f.share();
    CHECK(!f.valid() && s.valid());
    pc::shared_future<T> c(s), d;
    d = c;
    for (int k = 0; k < 2; k++) {
      int o1 = get_outcome(s), o2 = get_outcome(c), o3 = get_outcome(d);
      CHECK(o1 == want && o2 == want && o3 == want, "(got %d %d %d want %d)", o1, o2, o3, want);
      CHECK(s.valid() && c.valid() && d.valid());
    }
    CHECK(same_object<T>::addr(s) == same_object<T>::addr(c));
    pc::shared_future<T> m(std::move(c));
    CHECK(!c.valid() && get_outcome(m) == want);
    s = pc::shared_future<T>();
    d = pc::shared_future<T>();
    CHECK(get_outcome(m) == want);
    break;
  }
  case 3: {
    pc::shared_future<T> s(std::move(f));
    CHECK(!f.valid());
    int o = outcome_of([&] { s.wait(); return 0; });
    CHECK(o == 0 && s.is_ready());
    o = get_outcome(s);
    CHECK(o == want);
    break;
  }
  }
}

template <typename T> void promise_matrix() {
  init();
  {
    Arena *a = make_arena(0);
    int src = mc::choose(N_SRC), how = mc::choose(3), cons = mc::choose(4);
    {
      auto x = source<T>(src, a);
      int want = supply(x.p, how);
      CHECK(x.f.is_ready());
      if (mc::choose(2)) { // the producer is gone before the consumer looks
        pc::promise<T> gone(std::move(x.p));
      }
      consume(x.f, want, cons);
      mc::outcome("%d", want);
    }
    CHECK(a->blocks == 0);
  }
  NO_TRACKED_LEFT();
}
SCENARIO(C01, promise_int) { promise_matrix<int>(); }
SCENARIO(C01, promise_string) { promise_matrix<std::string>(); }
SCENARIO(C01, promise_uptr) { promise_matrix<uptr>(); }
SCENARIO(C01, promise_tracked) { promise_matrix<Tracked>(); }
SCENARIO(C01, promise_ref) { promise_matrix<int &>(); }
SCENARIO(C01, promise_void) { promise_matrix<void>(); }
SCENARIO(C01, promise_big) { promise_matrix<Big>(); }
SCENARIO(C01, promise_picky) { promise_matrix<Picky>(); }

// Result supplied before the future is retrieved.
template <typename T> void late_future() {
  Arena *a = make_arena(0);
  int src = mc::choose(3), how = mc::choose(3), cons = mc::choose(4);
  {
    pc::promise<T> p = src == 0   ? pc::promise<T>()
                       : src == 1 ? pc::promise<T>(std::allocator_arg, arena_alloc<char>(a))
                                  : pc::promise<T>(pc::canceler_arg, [] { mc::fail("cancel action although the result was supplied"); });
    if (mc::choose(2)) {
      pc::promise<T> q(std::move(p));
      p = std::move(q);
    }
    int want = supply(p, how);
    CHECK(p.is_awaiten());
    pc::future<T> f = p.get_future();
    CHECK(f.valid() && f.is_ready());
    consume(f, want, cons);
  }
  CHECK(a->blocks == 0);
}
SCENARIO(C01, late_future) {
  init();
  switch (mc::choose(8)) {
  case 0: late_future<int>(); break;
  case 1: late_future<std::string>(); break;
  case 2: late_future<uptr>(); break;
  case 3: late_future<Tracked>(); break;
  case 4: late_future<int &>(); break;
  case 5: late_future<void>(); break;
  case 6: late_future<Big>(); break;
  case 7: late_future<Picky>(); break;
  }
  NO_TRACKED_LEFT();
}

// Producer and consumers run concurrently.
template <typename T> void concurrent_one() {
  init();
  {
    Arena *a = make_arena(0);
    int src = mc::choose(3) * 2, how = mc::choose(3), cons = mc::choose(4);
    {
      auto x = source<T>(src, a);
      int want = how == 0 ? vid<T>(3) : how == 1 ? vid<T>(4) : EXC - 5;
      thr t([p = std::move(x.p), how]() mutable { supply(p, how); });
      consume(x.f, want, cons);
    }
    CHECK(a->blocks == 0);
  }
  NO_TRACKED_LEFT();
}
SCENARIO(C01, conc_int, o.preempt = 3; o.preempt_max = -1) { concurrent_one<int>(); }
SCENARIO(C01, conc_string, o.preempt = 3; o.preempt_max = -1) { concurrent_one<std::string>(); }
SCENARIO(C01, conc_uptr, o.preempt = 3; o.preempt_max = -1) { concurrent_one<uptr>(); }
SCENARIO(C01, conc_tracked, o.preempt = 3; o.preempt_max = -1) { concurrent_one<Tracked>(); }
SCENARIO(C01, conc_ref, o.preempt = 3; o.preempt_max = -1) { concurrent_one<int &>(); }
SCENARIO(C01, conc_void, o.preempt = 3; o.preempt_max = -1) { concurrent_one<void>(); }

// Two readers of copies against one writer, and readers against each other.
template <typename T> void concurrent_shared(bool before) {
  init();
  {
    int how = mc::choose(2) * 2;
    auto x = source<T>(0, nullptr);
    int want = how == 0 ? vid<T>(3) : EXC - 5;
    pc::shared_future<T> s = x.f.share(), c = s;
    if (before)
      supply(x.p, how);
    thr t([p = std::move(x.p), how, before]() mutable {
      if (!before)
        supply(p, how);
    });
    thr r([c = std::move(c), want] {
      CHECK(get_outcome(c) == want);
      CHECK(get_outcome(c) == want);
    });
    CHECK(get_outcome(s) == want);
    pc::shared_future<T> d = s;
    s = pc::shared_future<T>();
    CHECK(get_outcome(d) == want);
  }
  NO_TRACKED_LEFT();
}
SCENARIO(C01, shared2_string, o.preempt = 3; o.preempt_max = -1) { concurrent_shared<std::string>(false); }
SCENARIO(C01, shared2_tracked, o.preempt = 3; o.preempt_max = -1) { concurrent_shared<Tracked>(false); }
SCENARIO(C01, shared2_uptr, o.preempt = 3; o.preempt_max = -1) { concurrent_shared<uptr>(false); }
SCENARIO(C01, shared2_ref, o.preempt = 3; o.preempt_max = -1) { concurrent_shared<int &>(false); }
SCENARIO(C01, shared2_void, o.preempt = 3; o.preempt_max = -1) { concurrent_shared<void>(false); }
SCENARIO(C01, readers_after, o.preempt = 3; o.preempt_max = -1) { concurrent_shared<Tracked>(true); }

// ------------------------------------------------------------ packaged_task
template <typename T> struct ret {
  static T go(int i) { return kind<T>::make(i); }
};
template <> struct ret<void> {
  static void go(int) {}
};
template <typename T> void task_matrix() {
  init();
  {
    bool throws = mc::choose(2);
    int cons = mc::choose(4);
    int when = mc::choose(3); // future retrieved before, after; concurrent
    int want = throws ? EXC - 1 : vid<T>(2);
    Tracked cap(7);
    pc::packaged_task<T(int, Tracked &)> t([cap, throws](int i, Tracked &r) -> T {
      CHECK(cap.get() == 7 && r.get() == 9);
      if (throws)
        throw test_error{1};
      return ret<T>::go(i);
    });
    CHECK(t.valid());
    Tracked arg(9);
    pc::future<T> f;
    if (when != 1)
      f = t.get_future();
    if (when == 2) {
      thr th([t = std::move(t), &arg]() mutable { t(2, arg); });
      consume(f, want, cons);
    } else {
      if (when == 0)
        CHECK(!f.is_ready());
      t(2, arg);
      if (when == 1)
        f = t.get_future();
      CHECK(f.is_ready());
      consume(f, want, cons);
    }
    CHECK(arg.get() == 9);
  }
  NO_TRACKED_LEFT();
}
SCENARIO(C01, task_int, o.preempt = 3; o.preempt_max = -1) { task_matrix<int>(); }
SCENARIO(C01, task_uptr, o.preempt = 3; o.preempt_max = -1) { task_matrix<uptr>(); }
SCENARIO(C01, task_tracked, o.preempt = 3; o.preempt_max = -1) { task_matrix<Tracked>(); }
SCENARIO(C01, task_ref, o.preempt = 3; o.preempt_max = -1) { task_matrix<int &>(); }
SCENARIO(C01, task_void, o.preempt = 3; o.preempt_max = -1) { task_matrix<void>(); }

// arguments of every category reach the function unmodified
struct Obj {
  int base;
  int add(int x) const { return base + x; }
  int field = 77;
};
SCENARIO(C01, task_args) {
  init();
  {
    pc::packaged_task<int(uptr, std::string, const Tracked &, int &)> t([](uptr p, std::string s, const Tracked &c, int &r) {
      CHECK(*p == 5 && s == std::string(40, 'q') && c.get() == 3);
      r++;
      return *p + r;
    });
    auto f = t.get_future();
    int r = 10;
    Tracked c(3);
    const std::string s(40, 'q');
    t(uptr(new int(5)), s, c, r);
    CHECK(r == 11 && f.get() == 16 && s == std::string(40, 'q') && c.get() == 3);
  }
  NO_TRACKED_LEFT();
}
static int freefn(int a, std::string b) { return a + static_cast<int>(b.size()); }
template <typename E, typename Drain> void async_args(E e, Drain drain) {
  {
    std::string s(30, 'z');
    uptr p(new int(4));
    int target = 0;
    Obj ob{100};
    Tracked tr(6);
    auto f1 = pc::async(e, freefn, 5, s);
    auto f2 = pc::async(e, [](uptr q, const Tracked &t) { return *q + t.get(); }, std::move(p), tr);
    auto f3 = pc::async(e, [](int &x) -> int & { x = 9; return x; }, std::ref(target));
    auto f4 = pc::async(e, &Obj::add, ob, 11);
    auto f5 = pc::async(e, &Obj::add, &ob, 12);
    auto f6 = pc::async(e, [](std::string x) { return x; }, s);
    auto f7 = pc::async(e, [u = uptr(new int(8))]() mutable { return std::move(u); });
    auto f8 = pc::async(e, []() -> int { throw test_error{2}; });
    auto f9 = pc::async(e, [&] { target += 0; });
    s.assign(3, '!'); // arguments were copied
    drain();
    CHECK(f1.get() == 35);
    CHECK(f2.get() == 10);
    int &ref = f3.get();
    CHECK(&ref == &target && target == 9);
    CHECK(f4.get() == 111 && f5.get() == 112);
    CHECK(f6.get() == std::string(30, 'z'));
    uptr u = f7.get();
    CHECK(u && *u == 8);
    CHECK(get_outcome(f8) == EXC - 2);
    CHECK(get_outcome(f9) == 0);
    CHECK(tr.get() == 6 && !p);
  }
}
SCENARIO(C01, async_args_queue) {
  init();
  Queue q;
  async_args(qexec{&q}, [&] { q.run_all(); });
  CHECK(q.posts == 9);
  NO_TRACKED_LEFT();
}
SCENARIO(C01, async_args_inplace) {
  init();
  async_args(pc::inplace_executor, [] {});
  async_args(inl{1}, [] {});
  NO_TRACKED_LEFT();
}
template <typename T> void async_pool() {
  init();
  {
    bool throws = mc::choose(2);
    int cons = mc::choose(3);
    pc::static_thread_pool pool(1);
    Tracked cap(3);
    pc::future<T> f = pc::async(pool.executor(), [throws, cap](int i) -> T {
      CHECK(cap.get() == 3);
      if (throws)
        throw test_error{1};
      return ret<T>::go(i);
    }, 2);
    consume(f, throws ? EXC - 1 : vid<T>(2), cons);
  }
  NO_TRACKED_LEFT();
}
SCENARIO(C01, async_pool_tracked, o.preempt = 3; o.preempt_max = -1) { async_pool<Tracked>(); }
SCENARIO(C01, async_pool_uptr, o.preempt = 2; o.preempt_max = -1) { async_pool<uptr>(); }
SCENARIO(C01, async_pool_ref, o.preempt = 2; o.preempt_max = -1) { async_pool<int &>(); }
SCENARIO(C01, async_pool_void, o.preempt = 2; o.preempt_max = -1) { async_pool<void>(); }

// ------------------------------------------------------------ ready-made futures
SCENARIO(C01, ready_made) {
  init();
  {
    int cons = mc::choose(4);
    switch (mc::choose(9)) {
    case 0: {
      auto f = pc::make_ready_future(kind<int>::make(2));
      consume(f, 2, cons);
      break;
    }
    case 1: {
      auto f = pc::make_ready_future(kind<Tracked>::make(2));
      consume(f, 2, cons);
      break;
    }
    case 2: {
      Tracked t(4);
      pc::future<Tracked> f = pc::make_ready_future(t);
      CHECK(t.get() == 4);
      consume(f, 4, cons);
      break;
    }
    case 3: {
      auto f = pc::make_ready_future(kind<uptr>::make(1));
      consume(f, 1, cons);
      break;
    }
    case 4: {
      pc::future<int &> f = pc::make_ready_future(std::ref(kind<int &>::make(3)));
      consume(f, 3, cons);
      break;
    }
    case 5: {
      pc::future<void> f = pc::make_ready_future();
      consume(f, 0, cons);
      break;
    }
    case 6: {
      pc::future<std::string> f = pc::make_exceptional_future<std::string>(err(6));
      consume(f, EXC - 6, cons);
      break;
    }
    case 7: {
      pc::future<int &> f = pc::make_exceptional_future<int &>(test_error{7});
      consume(f, EXC - 7, cons);
      break;
    }
    case 8: {
      pc::future<void> f = pc::make_exceptional_future<void>(test_error{8});
      consume(f, EXC - 8, cons);
      break;
    }
    }
  }
  NO_TRACKED_LEFT();
}
// adapters
SCENARIO(C01, future_get_adapter) {
  init();
  {
    std::vector<pc::future<Tracked>> v;
    for (int i = 0; i < 3; i++)
      v.push_back(pc::make_ready_future(Tracked(i)));
    int i = 0;
    for (auto &f : v) {
      CHECK(pc::future_ready(f));
      Tracked t = pc::future_get(f);
      CHECK(t.get() == i && !f.valid());
      i++;
    }
    pc::shared_future<Tracked> s = pc::make_ready_future(Tracked(9));
    CHECK(pc::future_ready(s));
    CHECK(pc::future_get(s).get() == 9 && pc::future_get(s).get() == 9 && s.valid());
    auto p = pc::make_promise<int>();
    CHECK(!pc::future_ready(p.second));
  }
  NO_TRACKED_LEFT();
}
// what() of the exception survives, including non-std exceptions
SCENARIO(C01, exception_identity) {
  init();
  {
    struct plain {
      int x;
    };
    int how = mc::choose(3);
    auto x = source<int>(mc::choose(N_SRC), make_arena(0));
    pc::shared_future<int> s;
    std::exception_ptr e = std::make_exception_ptr(plain{41});
    if (how == 0)
      x.p.set_exception(e);
    else if (how == 1)
      x.p.set_exception(std::make_exception_ptr(plain{41}));
    else
      x.p.set_exception(std::exception_ptr(e));
    s = x.f.share();
    for (int i = 0; i < 3; i++) {
      bool ok = false;
      try {
        s.get();
      } catch (const plain &p) {
        ok = p.x == 41;
      } catch (...) {
      }
      CHECK(ok);
    }
  }
}
