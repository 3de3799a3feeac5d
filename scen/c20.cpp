// C20: a user-supplied allocator serves and gets back all memory of its promise.
#include "common.h"

// Stateful allocator which owns a share of its arena: copies are counted, and using a dead copy is an error.
struct Ar {
  long blocks, bytes, total, copies, fail_at, max_block;
};
static Ar *new_ar() { return static_cast<Ar *>(mc::ghost_alloc(sizeof(Ar))); }
struct Hdr {
  Ar *a;
  size_t n;
  unsigned magic;
};
template <typename T> struct chk {
  using value_type = T;
  Ar *a;
  unsigned magic = 0xA110C;
  explicit chk(Ar *x) : a(x) { a->copies++; }
  chk(const chk &o) noexcept : a(o.live()) { a->copies++; }
  template <typename U> chk(const chk<U> &o) noexcept : a(o.live()) { a->copies++; }
  chk &operator=(const chk &o) noexcept {
    live();
    Ar *n = o.live();
    a->copies--;
    a = n;
    a->copies++;
    return *this;
  }
  ~chk() {
    live();
    a->copies--;
    *const_cast<volatile unsigned *>(&magic) = 0xDEAD;
    *const_cast<Ar *volatile *>(&a) = nullptr;
  }
  Ar *live() const {
    if (magic != 0xA110C)
      mc::fail("use of an allocator that is not alive");
    return a;
  }
  T *allocate(size_t n) {
    Ar *x = live();
    x->total++;
    if (x->fail_at && x->total == x->fail_at)
      throw test_error{77};
    x->blocks++;
    x->bytes += static_cast<long>(n * sizeof(T));
    if (static_cast<long>(n * sizeof(T)) > x->max_block)
      x->max_block = static_cast<long>(n * sizeof(T));
    char *p = static_cast<char *>(::operator new(n * sizeof(T) + 64));
    new (p) Hdr{x, n * sizeof(T), 0xB10C};
    return reinterpret_cast<T *>(p + 64);
  }
  void deallocate(T *q, size_t n) {
    Ar *x = live();
    char *p = reinterpret_cast<char *>(q) - 64;
    auto *h = reinterpret_cast<Hdr *>(p);
    if (h->magic != 0xB10C)
      mc::fail("a block the allocator did not hand out");
    if (h->a != x)
      mc::fail("block returned to another arena");
    if (h->n != n * sizeof(T))
      mc::fail("block of %zu bytes returned as %zu bytes", h->n, n * sizeof(T));
    x->blocks--;
    x->bytes -= static_cast<long>(h->n);
    h->magic = 0;
    ::operator delete(p);
  }
  template <typename U> bool operator==(const chk<U> &o) const { return a == o.a; }
  template <typename U> bool operator!=(const chk<U> &o) const { return a != o.a; }
};
#define ALL_BACK(ar) CHECK((ar)->blocks == 0 && (ar)->bytes == 0 && (ar)->copies == 0, "%ld blocks, %ld bytes, %ld allocator copies left", (ar)->blocks, (ar)->bytes, (ar)->copies)

template <typename T> struct size_of { static constexpr long v = sizeof(T); };
template <> struct size_of<void> { static constexpr long v = 1; };
template <typename T> struct size_of<T &> { static constexpr long v = sizeof(void *); };

template <typename T> static std::pair<pc::promise<T>, pc::future<T>> source(int how, Ar *a) {
  if (how == 0)
    return pc::make_promise<T>(chk<char>(a));
  chk<double> al(a);
  pc::promise<T> p(std::allocator_arg, al);
  pc::future<T> f = how == 1 ? p.get_future() : pc::future<T>();
  return {std::move(p), std::move(f)};
}
template <typename T> static void finish(pc::promise<T> &p, int how) {
  if (how == 0)
    set_id<T>(p, 1);
  else if (how == 1)
    p.set_exception(err(1));
  else {
    pc::promise<T> gone(std::move(p));
  }
}
template <typename T> static int want(int how) { return how == 0 ? vid<T>(1) : how == 1 ? EXC - 1 : BROKEN; }

// ---------------------------------------------------------------- sequences, in lockstep with a promise without allocator
template <typename T> static void lockstep(int len) {
  init();
  Ar *a = new_ar();
  {
    const int how = mc::choose(2);
    pc::promise<T> p[2] = {pc::make_promise<T>().first, pc::make_promise<T>().first};
    pc::future<T> f[2];
    pc::shared_future<T> s[2];
    pc::future<int> g[2];
    mc::ghost n[2];
    {
      auto x = pc::make_promise<T>();
      auto y = source<T>(how, a);
      p[0] = std::move(x.first);
      f[0] = std::move(x.second);
      p[1] = std::move(y.first);
      f[1] = std::move(y.second);
    }
    CHECK(a->total >= 1 && a->blocks >= 1, "the result was not allocated with the allocator");
    CHECK(a->max_block >= size_of<T>::v, "no block is large enough for the result");
    for (int k = 0; k < len; k++) {
      const int o = mc::choose(14);
      int r[2];
      for (int i = 0; i < 2; i++)
        r[i] = outcome_of([&] {
          switch (o) {
          case 0:
            set_id<T>(p[i], 1);
            return 0;
          case 1:
            p[i].set_exception(err(1));
            return 0;
          case 2: {
            pc::promise<T> gone(std::move(p[i]));
            return 0;
          }
          case 3:
            f[i] = pc::future<T>();
            return 0;
          case 4:
            s[i] = f[i].share();
            return (int)s[i].valid();
          case 5:
            f[i] = f[i].detach();
            return 0;
          case 6:
            s[i] = s[i].detach();
            return 0;
          case 7:
            f[i].notify([c = n[i]] { c.bump(); });
            return 0;
          case 8:
            g[i] = f[i].then([](pc::future<T> v) { return get_outcome(v); });
            return (int)g[i].is_ready();
          case 9:
            g[i] = s[i].then([](pc::shared_future<T> v) { return get_outcome(v); });
            return (int)g[i].is_ready();
          case 10:
            s[i] = pc::shared_future<T>();
            return 0;
          case 11:
            if (f[i].valid() && !f[i].is_ready())
              return -7;
            return get_outcome(f[i]);
          case 12:
            g[i] = pc::future<int>();
            return 0;
          default:
            if (f[i].valid() && f[i].is_ready())
              f[i].wait();
            if (s[i].valid() && s[i].is_ready())
              return get_outcome(s[i]);
            return (int)p[i].is_awaiten();
          }
        });
      CHECK(r[0] == r[1], "operation %d: %d without, %d with allocator", o, r[0], r[1]);
      CHECK(n[0].peek() == n[1].peek(), "operation %d: notifications", o);
      CHECK(f[0].valid() == f[1].valid() && s[0].valid() == s[1].valid() && g[0].valid() == g[1].valid(), "operation %d", o);
      if (g[0].valid())
        CHECK(g[0].is_ready() == g[1].is_ready(), "operation %d", o);
      int aw[2];
      for (int i = 0; i < 2; i++)
        aw[i] = outcome_of([&] { return (int)p[i].is_awaiten(); });
      CHECK(aw[0] == aw[1], "operation %d: awaited %d and %d", o, aw[0], aw[1]);
    }
  }
  ALL_BACK(a);
  NO_TRACKED_LEFT();
}
SCENARIO(C20, lockstep_int) { lockstep<int>(mc::thorough() ? 5 : 4); }
SCENARIO(C20, lockstep_tracked) { lockstep<Tracked>(mc::thorough() ? 5 : 4); }
SCENARIO(C20, lockstep_void) { lockstep<void>(mc::thorough() ? 5 : 4); }
SCENARIO(C20, lockstep_ref) { lockstep<int &>(mc::thorough() ? 5 : 4); }

// two arenas: promises assigned, moved and overwritten; blocks go back to where they came from, and at once
SCENARIO(C20, two_arenas) {
  init();
  Ar *a[2] = {new_ar(), new_ar()};
  {
    std::vector<pc::promise<Tracked>> p;
    pc::future<Tracked> f[2];
    for (int i = 0; i < 2; i++) {
      auto x = source<Tracked>(mc::choose(3), a[i]);
      p.push_back(std::move(x.first));
      f[i] = std::move(x.second);
      CHECK(a[i]->blocks >= 1);
    }
    for (int k = 0; k < 3; k++) {
      const int i = mc::choose(2);
      switch (mc::choose(7)) {
      case 0:
        p[i] = std::move(p[1 - i]);
        break;
      case 1:
        f[i] = std::move(f[1 - i]);
        break;
      case 2:
        outcome_of([&] {
          set_id(p[i], 1);
          return 0;
        });
        break;
      case 3:
        if (f[i].valid())
          f[i] = f[i].detach();
        break;
      case 4:
        std::swap(p[0], p[1]);
        break;
      case 5:
        f[i] = pc::future<Tracked>();
        break;
      case 6: {
        pc::promise<Tracked> gone(std::move(p[i]));
        break;
      }
      }
    }
    p.clear();
    f[0] = pc::future<Tracked>();
    f[1] = pc::future<Tracked>();
    ALL_BACK(a[0]);
    ALL_BACK(a[1]);
  }
  NO_TRACKED_LEFT();
}

// ---------------------------------------------------------------- failing allocations
// k-th allocation from the arena fails: the allocator's exception comes out, everything stays as it was
template <typename T> static void failing() {
  init();
  Ar *a = new_ar();
  {
    const int how = mc::choose(3), k = 1 + mc::choose(4), what = mc::choose(4), fin = mc::choose(3), dets = 1 + mc::choose(2);
    a->fail_at = k;
    try {
      auto x = source<T>(how, a);
      if (how == 2)
        x.second = x.first.get_future();
      pc::future<T> f = std::move(x.second);
      pc::shared_future<T> s;
      const bool shared = what == 1 || what == 3;
      if (shared)
        s = f.share();
      long before = a->blocks;
      int failed = 0, did = 0;
      mc::ghost n;
      if (shared)
        s.notify([n] { n.bump(); });
      else
        f.notify([n] { n.bump(); });
      for (int d = 0; d < dets; d++) {
        int r = outcome_of([&] {
          if (shared)
            s = s.detach();
          else
            f = f.detach();
          return 0;
        });
        CHECK(r == 0 || r == EXC - 77, "(%d)", r);
        if (r) {
          failed++;
          CHECK(a->blocks == before, "blocks left behind by a failing call");
        } else
          did++;
        before = a->blocks;
        CHECK(shared ? s.valid() : f.valid(), "a failing detach lost the future");
        CHECK(x.first.is_awaiten());
      }
      if (what >= 2) { // drop: only a successful detach keeps it
        f = pc::future<T>();
        s = pc::shared_future<T>();
        CHECK(x.first.is_awaiten() == (did > 0), "awaited %d after %d detaches", (int)x.first.is_awaiten(), did);
      }
      const bool alive = did > 0 || what < 2;
      finish(x.first, fin);
      CHECK(n.peek() == alive, "(%ld)", n.peek());
      if (mc::choose(2)) { // get() may allocate: it may report the failure, but not lose anything
        long b4 = a->blocks;
        int r = what == 0 ? get_outcome(f) : what == 1 ? get_outcome(s) : 0;
        if (r == EXC - 77)
          CHECK(a->blocks == b4 && (what ? s.valid() : f.valid()), "a failing get() lost something");
        else if (what < 2)
          CHECK(r == want<T>(fin));
        if (what == 0 && r != EXC - 77)
          return;
      }
      a->fail_at = 0;
      if (what == 0)
        CHECK(get_outcome(f) == want<T>(fin));
      else if (what == 1)
        CHECK(get_outcome(s) == want<T>(fin));
      mc::outcome("failed detach %d", failed);
    } catch (const test_error &e) {
      CHECK(e.id == 77 && k == 1);
      mc::outcome("failed construction");
    }
  }
  ALL_BACK(a);
  NO_TRACKED_LEFT();
}
SCENARIO(C20, failing_int) { failing<int>(); }
SCENARIO(C20, failing_void) { failing<void>(); }
SCENARIO(C20, failing_ref) { failing<int &>(); }
SCENARIO(C20, failing_tracked) { failing<Tracked>(); }

// a blocking wait may allocate: if that fails the caller gets the exception and keeps its future
SCENARIO(C20, failing_wait, o.preempt = -1) {
  init();
  Ar *a = new_ar();
  {
    const int shared = mc::choose(2), k = 2 + mc::choose(2), op = mc::choose(2);
    a->fail_at = k;
    auto x = source<Tracked>(0, a);
    pc::future<Tracked> f = std::move(x.second);
    pc::shared_future<Tracked> s;
    if (shared)
      s = f.share();
    {
      thr t([&x] { x.first.set_value(Tracked(1)); });
      int r = outcome_of([&] {
        if (op == 0) {
          shared ? s.wait() : f.wait();
          return 1;
        }
        return shared ? get_outcome(s) : get_outcome(f);
      });
      CHECK(r == 1 || r == EXC - 77, "(%d)", r);
      if (op == 0 || r == EXC - 77)
        CHECK(shared ? s.valid() : f.valid());
    }
    a->fail_at = 0;
    if (f.valid())
      CHECK(get_outcome(f) == 1);
    if (s.valid())
      CHECK(get_outcome(s) == 1);
  }
  ALL_BACK(a);
  NO_TRACKED_LEFT();
}

// ---------------------------------------------------------------- races
enum { D_GET, D_WAIT_DROP, D_DROP, D_DETACH, D_NOTIFY, D_THEN, D_TIMED, D_N };
template <typename T, typename Fut> static void consumer(Fut f, int what, int fin) {
  switch (what) {
  case D_GET:
    CHECK(get_outcome(f) == want<T>(fin));
    break;
  case D_WAIT_DROP:
    f.wait();
    break;
  case D_DROP:
    break;
  case D_DETACH:
    f.detach();
    break;
  case D_NOTIFY:
    f.notify([c = std::make_shared<int>(1)] { CHECK(*c == 1); });
    break;
  case D_THEN: {
    auto g = f.then([c = Tracked(1)](Fut v) { return get_outcome(v); });
    f = Fut();
    g.wait();
    break;
  }
  case D_TIMED: {
    pc::timed_waiter w(f);
    w.wait_for(std::chrono::seconds(5));
    break;
  }
  }
}
template <typename T> static void race2() {
  init();
  Ar *a = new_ar();
  {
    const int how = mc::choose(2), what = mc::choose(D_N), fin = mc::choose(3);
    auto x = source<T>(how, a);
    {
      thr t([p = std::move(x.first), fin]() mutable { finish(p, fin); });
      consumer<T>(std::move(x.second), what, fin);
    }
    ALL_BACK(a);
  }
  NO_TRACKED_LEFT();
}
SCENARIO(C20, race_int, o.preempt = 6; o.preempt_max = -1) { race2<int>(); }
SCENARIO(C20, race_void, o.preempt = 6; o.preempt_max = -1) { race2<void>(); }
SCENARIO(C20, race_tracked, o.preempt = 6; o.preempt_max = -1) { race2<Tracked>(); }

static void race3(int lo, int hi) {
  init();
  Ar *a = new_ar();
  {
    const int w1 = lo + mc::choose(hi - lo), w2 = mc::choose(w1 + 1), fin = mc::choose(3);
    auto x = source<Tracked>(0, a);
    {
      pc::shared_future<Tracked> s = x.second.share();
      thr t([p = std::move(x.first), fin]() mutable { finish(p, fin); });
      thr u([s, w1, fin]() mutable { consumer<Tracked>(std::move(s), w1, fin); });
      consumer<Tracked>(std::move(s), w2, fin);
    }
    ALL_BACK(a);
  }
  NO_TRACKED_LEFT();
}
SCENARIO(C20, race3_a, o.preempt = 3; o.preempt_max = 4) { race3(0, 3); }
SCENARIO(C20, race3_b, o.preempt = 3; o.preempt_max = 4) { race3(3, 5); }
SCENARIO(C20, race3_c, o.preempt = 2; o.preempt_max = 3) { race3(5, D_N); }

// the last handles are the promise (whose weak reference keeps the block) and the future
SCENARIO(C20, last_owner, o.preempt = -1) {
  init();
  Ar *a = new_ar();
  {
    auto x = source<Tracked>(mc::choose(2), a);
    const int set = mc::choose(2);
    {
      thr t([p = std::move(x.first), set]() mutable {
        if (set)
          p.set_value(Tracked(1));
        pc::promise<Tracked> gone(std::move(p));
      });
      thr u([f = std::move(x.second)]() mutable { f = pc::future<Tracked>(); });
    }
    ALL_BACK(a);
  }
  NO_TRACKED_LEFT();
}
// vectors of futures with an allocator, given to when_all and when_any
template <bool ALL> static void vectors() {
  init();
  Ar *a = new_ar(), *b = new_ar();
  {
    using V = std::vector<pc::future<Tracked>, chk<pc::future<Tracked>>>;
    const int n = mc::choose(3), end = mc::choose(3);
    V v{chk<pc::future<Tracked>>(a)};
    v.reserve(2);
    std::vector<pc::promise<Tracked>> p;
    for (int i = 0; i < n; i++) {
      auto x = source<Tracked>(0, b);
      p.push_back(std::move(x.first));
      v.push_back(std::move(x.second));
    }
    auto complete = [&] {
      for (auto &x : p)
        x.set_value(Tracked(1));
    };
    if constexpr (ALL) {
      pc::future<V> f = pc::when_all(std::move(v));
      if (end)
        complete();
      if (end == 1) {
        V r = f.get();
        CHECK((int)r.size() == n);
        for (auto &x : r)
          CHECK(get_outcome(x) == 1);
      }
    } else {
      auto f = pc::when_any(std::move(v));
      if (end)
        complete();
      if (end == 1) {
        auto r = f.get();
        CHECK((int)r.futures.size() == n && (n == 0 || r.index == 0));
        for (auto &x : r.futures)
          CHECK(get_outcome(x) == 1);
      }
    }
  }
  ALL_BACK(a);
  ALL_BACK(b);
  NO_TRACKED_LEFT();
}
SCENARIO(C20, vector_all) { vectors<true>(); }
SCENARIO(C20, vector_any) { vectors<false>(); }
