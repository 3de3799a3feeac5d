// C17: the callable is the one given at the call, whatever happens to the caller's object afterwards
#include "copy.h"

struct Small : Orig {
  int operator()(int x) const { return x + id.get(); }
};
struct Large : Orig {
  char pad[200] = {};
  int operator()(int x) const { return x + id.get(); }
};
struct LNext : Orig {
  int operator()(int x) & { return x + id.get(); }
};
template <typename F> static void boxed() {
  init();
  const int how = mc::choose(2), moved = mc::choose(2);
  {
    pc::unique_function<int(int)> u, v;
    hand_over<F>([&](auto &&fn) {
      if (how == 0)
        u = pc::unique_function<int(int)>(FWD(fn));
      else {
        pc::unique_function<int(int)> w = FWD(fn);
        std::swap(u, w);
      }
    });
    if (moved)
      v = std::move(u);
    auto &r = moved ? v : u;
    CHECK(r(1) == 6 && r(2) == 7);
  }
  NO_TRACKED_LEFT();
}
SCENARIO(C17, copy_small) { boxed<Small>(); }
SCENARIO(C17, copy_large) { boxed<Large>(); }
SCENARIO(C17, copy_lvalue_call) { boxed<LNext>(); }
