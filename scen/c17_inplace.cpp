// C17: what the library hands to executors, and packaged tasks, fit into a unique_function without allocation
#include "common.h"

struct mexec {
  Queue *q;
  long *max;
};
template <typename F> static void post(mexec e, F f) {
  e.q->q.emplace_back(nullptr);
  mc::fail_alloc_at(1L << 40);
  pc::unique_function<void()> u(std::move(f));
  pc::unique_function<void()> v(std::move(u));
  const long n = mc::allocs_since_arm();
  mc::fail_alloc_at(0);
  if (n > *e.max)
    *e.max = n;
  e.q->q.back() = std::move(v);
}
namespace portable_concurrency {
template <> struct is_executor<mexec> : std::true_type {};
} // namespace portable_concurrency
struct Big {
  Tracked t{3};
  char pad[200] = {};
};
template <typename T> static void posted() {
  init();
  {
    const int what = mc::choose(5), big = mc::choose(2);
    Queue q;
    long max = 0;
    mexec e{&q, &max};
    auto x = pc::make_promise<T>();
    mc::ghost n;
    auto go = [&](auto cap) {
      pc::future<int> r;
      auto any = [cap, n](auto &&...) {
        n.bump();
        return 5;
      };
      pc::shared_future<T> s;
      switch (what) {
      case 0:
        r = pc::async(e, any, cap, 1);
        break;
      case 1:
        r = x.second.then(e, any);
        break;
      case 2:
        r = x.second.next(e, any);
        break;
      case 3:
        s = x.second.share();
        r = s.then(e, any);
        break;
      default:
        s = x.second.share();
        r = s.next(e, any);
      }
      set_id<T>(x.first, 1);
      CHECK(n.peek() == 0 && q.q.size() == 1);
      q.run_all();
      CHECK(max == 0, "%ld allocations to store a posted task", max);
      CHECK(n.peek() == 1 && r.get() == 5);
    };
    if (big)
      go(Big{});
    else
      go(1);
  }
  NO_TRACKED_LEFT();
}
SCENARIO(C17, posted_int) { posted<int>(); }
SCENARIO(C17, posted_void) { posted<void>(); }
SCENARIO(C17, posted_ref) { posted<int &>(); }
SCENARIO(C17, posted_tracked) { posted<Tracked>(); }

SCENARIO(C17, packaged_in_place) {
  init();
  {
    const int state = mc::choose(3);
    pc::packaged_task<std::string(int, const std::string &)> t([b = Big{}](int n, const std::string &s) { return s + std::to_string(n); });
    pc::future<std::string> f;
    if (state)
      f = t.get_future();
    if (state == 2)
      t = decltype(t)();
    mc::fail_alloc_at(1L << 40);
    pc::unique_function<void(int, const std::string &)> u(std::move(t));
    pc::unique_function<void(int, const std::string &)> v;
    v = std::move(u);
    const long n = mc::allocs_since_arm();
    mc::fail_alloc_at(0);
    CHECK(n == 0, "%ld allocations to store a packaged task", n);
    if (state == 2)
      CHECK(outcome_of([&] {
              v(4, "x");
              return 0;
            }) == NO_STATE);
    else
      v(4, "x");
    if (state == 1)
      CHECK(f.get() == "x4");
    if (state == 2)
      CHECK(get_outcome(f) == BROKEN);
  }
  NO_TRACKED_LEFT();
}
