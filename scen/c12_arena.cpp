// C12: vectors with an allocator that has a state
#include "common.h"

template <typename V, std::enable_if_t<std::is_copy_constructible<typename V::value_type>::value, int> = 0> static auto call(V &v, bool lvalue) { return lvalue ? pc::when_any(v) : pc::when_any(std::move(v)); }
template <typename V, std::enable_if_t<!std::is_copy_constructible<typename V::value_type>::value, int> = 0> static auto call(V &v, bool) { return pc::when_any(std::move(v)); }
// the futures come back in a vector of the same arena; a vector given by lvalue is copied and stays as it was
template <template <typename> class Fut, typename T> static void arena_vector() {
  init();
  Arena *a = make_arena(1);
  {
    using V = std::vector<Fut<T>, arena_alloc<Fut<T>>>;
    const int n = mc::choose(4), early = mc::choose(n + 1), lvalue = std::is_same<Fut<T>, pc::shared_future<T>>::value ? mc::choose(2) : 0;
    V v{arena_alloc<Fut<T>>(a)};
    std::vector<pc::promise<T>> p(n);
    for (int i = 0; i < n; i++)
      v.push_back(p[i].get_future());
    for (int i = 0; i < early; i++)
      set_id(p[i], i);
    pc::future<pc::when_any_result<V>> w = call(v, lvalue);
    if (lvalue) {
      CHECK(v.size() == (size_t)n);
      for (auto &f : v)
        CHECK(f.valid());
    }
    CHECK(w.is_ready() == (early > 0 || n == 0));
    for (int i = n - 1; i >= early; i--)
      set_id(p[i], i);
    CHECK(w.is_ready());
    pc::when_any_result<V> res = w.get();
    CHECK(n == 0 ? res.index == (size_t)-1 : early ? (long)res.index < early : res.index == (size_t)(n - 1));
    V r = std::move(res.futures);
    CHECK(r.get_allocator() == arena_alloc<Fut<T>>(a) && r.size() == (size_t)n);
    for (int i = 0; i < n; i++)
      CHECK(r[i].valid() && r[i].is_ready() && get_outcome(r[i]) == i);
  }
  CHECK(a->blocks == 0, "%ld blocks of the arena left", a->blocks);
  NO_TRACKED_LEFT();
}
SCENARIO(C12, arena_future) { arena_vector<pc::future, Tracked>(); }
SCENARIO(C12, arena_shared) { arena_vector<pc::shared_future, Tracked>(); }
