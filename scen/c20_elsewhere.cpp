// C20: a promise with an allocator takes no memory from elsewhere
#include "common.h"

struct Meter { // global allocations of this thread which are not those of the arena
  Arena *a;
  long before;
  explicit Meter(Arena *x) : a(x), before(x->total) { mc::fail_alloc_at(1L << 40); }
  long elsewhere() const { return mc::allocs_since_arm() - (a->total - before); }
  ~Meter() { mc::fail_alloc_at(0); }
};
template <typename T> static void elsewhere(bool race) {
  init();
  Arena *a = make_arena(0);
  {
    const int old = mc::choose(2), shared = mc::choose(2), op = race ? mc::choose(2) : mc::choose(4), how = mc::choose(2);
    std::exception_ptr e = err(1);
    pc::promise<T> p;
    pc::future<T> f;
    {
      Meter m(a);
      if (old) {
        pc::promise<T> q(std::allocator_arg, arena_alloc<int>(a));
        f = q.get_future();
        CHECK(m.elsewhere() == 0, "%ld blocks from elsewhere to create the promise", m.elsewhere());
        p = std::move(q);
      } else {
        auto x = pc::make_promise<T>(arena_alloc<int>(a));
        CHECK(m.elsewhere() == 0, "%ld blocks from elsewhere to create the promise", m.elsewhere());
        p = std::move(x.first);
        f = std::move(x.second);
      }
    }
    CHECK(a->total >= 1);
    pc::shared_future<T> s;
    if (shared)
      s = f.share();
    auto supply = [&] {
      if (how)
        p.set_exception(e);
      else
        set_id<T>(p, 1);
    };
    if (race) {
      thr t(supply);
      Meter m(a);
      if (op == 0)
        shared ? s.wait() : f.wait();
      else
        shared ? (void)(s = s.detach()) : (void)(f = f.detach());
      CHECK(m.elsewhere() == 0, "%ld blocks from elsewhere", m.elsewhere());
    } else {
      {
        Meter m(a);
        if (op == 1)
          shared ? (void)(s = s.detach()) : (void)(f = f.detach());
        if (op == 2)
          CHECK(!(shared ? s.is_ready() : f.is_ready()));
        supply();
        if (op == 3)
          shared ? s.wait() : f.wait();
        CHECK(m.elsewhere() == 0, "%ld blocks from elsewhere", m.elsewhere());
      }
    }
    const int o = shared ? get_outcome(s) : get_outcome(f);
    CHECK(o == (how ? EXC - 1 : vid<T>(1)), "(%d)", o);
  }
  CHECK(a->blocks == 0 && a->bytes == 0);
}
SCENARIO(C20, elsewhere_int) { elsewhere<int>(false); }
SCENARIO(C20, elsewhere_void) { elsewhere<void>(false); }
SCENARIO(C20, elsewhere_ref) { elsewhere<int &>(false); }
SCENARIO(C20, elsewhere_race, o.preempt = 3; o.preempt_max = -1; o.env = 1) { elsewhere<int>(true); }
SCENARIO(C20, elsewhere_race_void, o.preempt = 3; o.preempt_max = -1; o.env = 1) { elsewhere<void>(true); }
