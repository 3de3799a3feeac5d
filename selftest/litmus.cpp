// Self-test of the model checker: programs whose outcome sets / verdicts are known, and a
// program given by MC_PROG (one op letter string per thread, separated by '/') whose outcome
// set is compared between the exploration with and without the state cache.
#include "../engine/mc.h"
#include <atomic>
#include <chrono>
#include <condition_variable>
#include <cstdlib>
#include <cstring>
#include <mutex>
#include <shared_mutex>
#include <thread>
#include <vector>

static const char *prog = getenv("MC_PROG");

struct World {
  std::atomic<long> x{0}, y{0};
  std::mutex m, n;
  std::condition_variable cv;
  bool flag = false;
  long plain = 0;
  mc::ghost g;
};
static void run(World &w, const char *p, size_t len, std::string &out) {
  auto rec = [&](long v) { out += std::to_string(v) + ","; };
  for (size_t i = 0; i < len; i++) {
    switch (p[i]) {
    case 'x': rec(w.x.load()); break;
    case 'X': w.x.store(w.x.load() * 2 + 1); break;
    case 'a': rec(w.x.fetch_add(1)); break;
    case 'y': rec(w.y.load()); break;
    case 'Y': w.y.store(w.x.load() + 7); break;
    case 'c': { long e = 1; rec(w.x.compare_exchange_strong(e, 5)); break; }
    case 'l': w.m.lock(); rec(w.plain); w.plain = w.plain * 3 + (long)i + 1; w.m.unlock(); break;
    case 't': if (w.n.try_lock()) { rec(1); w.x.fetch_add(10); w.n.unlock(); } else rec(0); break;
    case 'L': { std::lock_guard<std::mutex> a(w.m); std::lock_guard<std::mutex> b(w.n); w.plain++; break; }
    case 'w': { std::unique_lock<std::mutex> l(w.m); w.cv.wait(l, [&] { return w.flag; }); rec(w.plain); break; }
    case 'W': { std::unique_lock<std::mutex> l(w.m); rec(w.cv.wait_for(l, std::chrono::seconds(1), [&] { return w.flag; })); break; }
    case 's': { std::lock_guard<std::mutex> l(w.m); w.flag = true; w.plain += 100; w.cv.notify_all(); break; }
    case 'S': { std::lock_guard<std::mutex> l(w.m); w.flag = true; } w.cv.notify_one(); break;
    case 'p': mc::yield_point(); break;
    case 'g': rec(w.g.add(1)); break;
    case 'G': rec(w.g.get()); break;
    case 'o': rec(mc::choose(2)); break;
    case 'z': std::this_thread::yield(); break;
    case 'T': { std::thread t([&w] { w.x.fetch_add(3); }); rec(w.x.load()); t.join(); break; }
    }
  }
}
SCENARIO(SELF, prog, o.preempt = -1; o.env = 0) {
  std::string out[3];
  World w;
  std::vector<std::thread> ts;
  const char *p = prog;
  int k = 0;
  const char *mainp = nullptr;
  size_t mainl = 0;
  for (;;) {
    const char *e = strchr(p, '/');
    size_t len = e ? (size_t)(e - p) : strlen(p);
    if (!e) {
      mainp = p;
      mainl = len;
      break;
    }
    std::string *o = &out[k++];
    ts.emplace_back([&w, p, len, o] { run(w, p, len, *o); });
    p = e + 1;
  }
  run(w, mainp, mainl, out[k]);
  for (auto &t : ts)
    t.join();
  std::string s;
  for (int i = 0; i <= k; i++)
    s += out[i] + ";";
  mc::outcome("%s x%ld y%ld p%ld", s.c_str(), w.x.load(), w.y.load(), w.plain);
}
// ------------------------------------------------------------- known verdicts
SCENARIO(SELF, sb_sc, o.preempt = -1) {
  std::atomic<int> x{0}, y{0};
  int a = 0, b = 0;
  std::thread t([&] { x.store(1); a = y.load(); });
  y.store(1);
  b = x.load();
  t.join();
  mc::outcome("%d%d", a, b);
}
SCENARIO(SELF, sb_relaxed, o.preempt = -1; o.stale = 1; o.env = 4) {
  std::atomic<int> x{0}, y{0};
  int a = 0, b = 0;
  std::thread t([&] { x.store(1, std::memory_order_relaxed); a = y.load(std::memory_order_relaxed); });
  y.store(1, std::memory_order_relaxed);
  b = x.load(std::memory_order_relaxed);
  t.join();
  mc::outcome("%d%d", a, b);
}
SCENARIO(SELF, mp_ok, o.preempt = -1; o.stale = 1; o.env = 4) {
  std::atomic<int> f{0};
  int d = 0;
  std::thread t([&] { d = 42; f.store(1, std::memory_order_release); });
  if (f.load(std::memory_order_acquire))
    mc::outcome("seen%d", d);
  else
    mc::outcome("no");
  t.join();
}
// coherence with older values allowed: what happens-before a load, or was read before it, is a floor
SCENARIO(SELF, stale_mutex, o.preempt = -1; o.stale = 1; o.env = 4) {
  std::atomic<int> x{0};
  std::mutex m;
  int f = 0, r;
  std::thread t([&] {
    x.store(1, std::memory_order_relaxed);
    std::lock_guard<std::mutex> l(m);
    f = 1;
  });
  {
    std::lock_guard<std::mutex> l(m);
    r = f;
  }
  mc::outcome("%d%d", r, x.load(std::memory_order_relaxed));
  t.join();
}
SCENARIO(SELF, stale_read_read, o.preempt = -1; o.stale = 1; o.env = 4) {
  std::atomic<int> x{0};
  std::mutex m;
  int f = 0, r;
  std::thread t([&] { x.store(1, std::memory_order_relaxed); });
  std::thread u([&] {
    if (x.load(std::memory_order_relaxed)) {
      std::lock_guard<std::mutex> l(m);
      f = 1;
    }
  });
  {
    std::lock_guard<std::mutex> l(m);
    r = f;
  }
  mc::outcome("%d%d", r, x.load(std::memory_order_relaxed));
  t.join();
  u.join();
}
SCENARIO(SELF, stale_same, o.preempt = -1; o.stale = 1; o.env = 4) {
  std::atomic<int> x{0};
  std::thread t([&] {
    x.store(1, std::memory_order_relaxed);
    x.fetch_add(1, std::memory_order_acq_rel);
  });
  int a = x.load(std::memory_order_relaxed), b = x.load(std::memory_order_acquire);
  mc::outcome("%d%d", a, b);
  t.join();
  if (x.load(std::memory_order_relaxed) != 2)
    mc::fail("older value after join");
}
SCENARIO(SELF, bad_mp_relaxed, o.preempt = -1) {
  std::atomic<int> f{0};
  int d = 0;
  std::thread t([&] { d = 42; f.store(1, std::memory_order_relaxed); });
  if (f.load(std::memory_order_acquire))
    mc::outcome("seen%d", d);
  t.join();
}
SCENARIO(SELF, bad_race, o.preempt = 0) {
  int d = 0;
  std::thread t([&] { d = 42; });
  d = 1;
  t.join();
}
SCENARIO(SELF, bad_abba, o.preempt = 1) {
  std::mutex a, b;
  std::thread t([&] { std::lock_guard<std::mutex> l(a), k(b); });
  { std::lock_guard<std::mutex> k(b), l(a); }
  t.join();
}
SCENARIO(SELF, bad_lost_wakeup, o.preempt = 2) {
  std::mutex m;
  std::condition_variable cv;
  std::atomic<bool> f{false};
  std::thread t([&] { std::unique_lock<std::mutex> l(m); while (!f.load()) cv.wait(l); });
  f = true;
  cv.notify_one(); // not under the lock: may hit between test and wait
  t.join();
}
SCENARIO(SELF, bad_spurious, o.preempt = 1; o.env = 1) {
  std::mutex m;
  std::condition_variable cv;
  bool f = false;
  std::thread t([&] { std::unique_lock<std::mutex> l(m); if (!f) cv.wait(l); CHECK(f); });
  { std::lock_guard<std::mutex> l(m); f = true; }
  cv.notify_one();
  t.join();
}
SCENARIO(SELF, bad_uaf, o.preempt = 2) {
  auto *p = new std::atomic<int>(0);
  std::thread t([p] { p->store(1); });
  while (!p->load())
    std::this_thread::yield();
  auto *q = new std::atomic<int>(0);
  std::thread u([q] { q->store(1); q->store(2); });
  if (q->load())
    delete q;
  else { u.join(); delete q; }
  t.join();
  if (u.joinable()) u.join();
  delete p;
}
SCENARIO(SELF, bad_leak, o.preempt = 1) {
  std::atomic<int> x{0};
  int *p = new int(1);
  std::thread t([&] { x = 1; });
  if (!x.load())
    delete p;
  t.join();
}
SCENARIO(SELF, bad_double_free, o.preempt = 1) {
  std::atomic<int> x{2};
  int *p = new int(1);
  auto f = [&] { int v = x.load(); x.store(v - 1); if (v != 2) delete p; };
  std::thread t([&] { x.fetch_sub(0); if (x.fetch_sub(1) == 1) delete p; });
  f();
  t.join();
}
SCENARIO(SELF, bad_livelock, o.preempt = 0) {
  std::atomic<int> x{0};
  std::thread t([&] { while (!x.load()) std::this_thread::yield(); });
  t.join();
}
SCENARIO(SELF, bad_after_yield, o.preempt = 0) {
  mc::ghost g;
  std::thread t([g] { mc::yield_point(); mc::yield_point(); g.set(1); });
  t.join();
  CHECK(!g.get());
}
SCENARIO(SELF, bad_timeout, o.preempt = 0; o.env = 0) {
  std::mutex m;
  std::condition_variable cv;
  std::unique_lock<std::mutex> l(m);
  CHECK(cv.wait_for(l, std::chrono::hours(5)) == std::cv_status::no_timeout);
}
SCENARIO(SELF, interleavings, o.preempt = -1) {
  mc::ghost g(1);
  long t0 = 0, t1 = 0;
  std::thread t([&] { t0 = g.add(1) * 10; t0 += g.add(1); });
  t1 = g.add(1) * 10;
  t1 += g.add(1);
  t.join();
  mc::outcome("%ld/%ld", t0, t1);
}
SCENARIO(SELF, signal_any, o.preempt = -1) {
  std::mutex m;
  std::condition_variable cv;
  int tickets = 0, order = 0, first = 0;
  auto body = [&](int id) {
    std::unique_lock<std::mutex> l(m);
    while (!tickets)
      cv.wait(l);
    tickets--;
    if (!order++)
      first = id;
  };
  std::thread a([&] { body(1); }), b([&] { body(2); });
  for (int i = 0; i < 2; i++) {
    std::lock_guard<std::mutex> l(m);
    tickets++;
    cv.notify_one();
  }
  a.join();
  b.join();
  mc::outcome("first%d", first);
}
// function-local statics start afresh in every execution and are destroyed at its end
struct StaticBox {
  int *p = new int(7);
  ~StaticBox() { delete p; }
};
SCENARIO(SELF, local_static, o.preempt = -1) {
  auto use = [] {
    static StaticBox b;
    static std::mutex m;
    std::lock_guard<std::mutex> l(m);
    return ++*b.p;
  };
  int r1 = 0, r2 = 0;
  std::thread a([&] { r1 = use(); }), b([&] { r2 = use(); });
  a.join();
  b.join();
  mc::outcome("%d%d", r1, r2);
}
// test-and-set locks: contention is not a livelock, a lock that is never released is
template <typename L, typename U> static void spin_lock(L lock, U unlock) {
  int n = 0, order = 0;
  auto body = [&](int id) {
    lock();
    n++;
    order = order * 10 + id;
    unlock();
  };
  std::thread a([&] { body(1); }), b([&] { body(2); });
  a.join();
  b.join();
  if (n != 2)
    mc::fail("lost update");
  mc::outcome("%d", order);
}
SCENARIO(SELF, tas_lock, o.preempt = 2) {
  std::atomic_flag f = ATOMIC_FLAG_INIT;
  spin_lock([&] { while (f.test_and_set(std::memory_order_acquire)) {} }, [&] { f.clear(std::memory_order_release); });
}
SCENARIO(SELF, xchg_lock, o.preempt = 2) {
  std::atomic<int> f{0};
  spin_lock([&] { while (f.exchange(1)) {} }, [&] { f = 0; });
}
SCENARIO(SELF, cas_lock, o.preempt = 2) {
  std::atomic<int> f{0};
  spin_lock([&] { int z = 0; while (!f.compare_exchange_weak(z, 1)) { z = 0; std::this_thread::yield(); } }, [&] { f = 0; });
}
SCENARIO(SELF, bad_tas_lock, o.preempt = 1) {
  std::atomic_flag f = ATOMIC_FLAG_INIT;
  spin_lock([&] { while (f.test_and_set(std::memory_order_acquire)) {} }, [&] {});
}
SCENARIO(SELF, bad_tas_relaxed, o.preempt = 1) {
  std::atomic_flag f = ATOMIC_FLAG_INIT;
  spin_lock([&] { while (f.test_and_set(std::memory_order_relaxed)) {} }, [&] { f.clear(std::memory_order_release); });
}
// read-write locks: readers overlap, writers exclude everybody, and their sections are ordered
SCENARIO(SELF, rwlock, o.preempt = -1) {
  std::shared_timed_mutex m;
  mc::ghost in;
  int n = 0, seen = 0;
  std::thread w([&] {
    std::lock_guard<std::shared_timed_mutex> l(m);
    n = 1;
  });
  std::thread r([&] {
    std::shared_lock<std::shared_timed_mutex> l(m);
    in.add(1);
    (void)n;
    in.add(-1);
  });
  {
    std::shared_lock<std::shared_timed_mutex> l(m);
    seen = n;
    const long both = in.get();
    mc::outcome("%d%ld", seen, both);
  }
  w.join();
  r.join();
}
SCENARIO(SELF, bad_rwlock, o.preempt = 1) {
  std::shared_timed_mutex m;
  int n = 0;
  auto body = [&] {
    std::shared_lock<std::shared_timed_mutex> l(m);
    n++;
  };
  std::thread a(body), b(body);
  a.join();
  b.join();
}
